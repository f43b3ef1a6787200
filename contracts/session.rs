verus! {

// ---------------------------------------------------------------------------
// vxt: what a session may do, as monitors over the events of its world (`vxm::Ev`). `runNN(t)` feeds the events
// of `t`, in order, to the monitor of property PNN. `pNN_idle` says that it has nothing to object and that nothing is owed at that point (the contract of the session's loop), `pNN_end` what must
// hold when the session ends with result `r`.
// ---------------------------------------------------------------------------
pub mod vxt {
    use vstd::prelude::*;
    use vstd::multiset::*;
    use crate::vxm::*;
    use crate::vxs::*;
    use crate::protocol::*;
    use crate::client::Notification;
    use crate::Command;

    pub type End = std::result::Result<(), std_io::Error>;

    /// the packet id of a packet that asks for an acknowledgement
    pub open spec fn request_id(p: Packet) -> Option<int> {
        match p {
            Packet::Subscribe(s) => Some(s.pktid@ as int),
            Packet::Unsubscribe(s) => Some(s.pktid@ as int),
            Packet::Publish(m) => if m.flags.qos.num() > 0 { match m.pktid { Some(i) => Some(i@ as int), None => Some(0) } } else { None },
            _ => None,
        }
    }
    pub open spec fn needs_id(c: Command) -> bool {
        match c {
            Command::Publish { topic, payload, properties, qos, retain } => qos.num() > 0,
            Command::Disconnect => false,
            _ => true,
        }
    }

    // ----- P13: packet ids -----
    pub struct M13 {
        pub ok: bool,
        /// ids of requests whose acknowledgement is still to come
        pub inflight: Set<int>,
        /// ids of the QoS 1 PUBLISH packets among them
        pub waiting: Multiset<int>,
    }
    pub open spec fn step13(m: M13, e: Ev) -> M13 {
        match e {
            Ev::Sent(p) | Ev::SendFailed(p) => match request_id(p) {
                Some(id) => M13 {
                    ok: m.ok && 1 <= id <= 65535 && !m.inflight.contains(id),
                    inflight: m.inflight.insert(id),
                    waiting: if p is Publish && p->Publish_0.flags.qos.num() == 1 { m.waiting.insert(id) } else { m.waiting },
                },
                None => m,
            },
            Ev::Recv(Some(Ok(Packet::SubAck(a)))) => M13 { inflight: m.inflight.remove(a.pktid@ as int), ..m },
            Ev::Recv(Some(Ok(Packet::UnsubAck(a)))) => M13 { inflight: m.inflight.remove(a.pktid@ as int), ..m },
            Ev::Recv(Some(Ok(Packet::PubAck(a)))) => if m.waiting.count(a.pktid@ as int) > 0 {
                M13 { inflight: m.inflight.remove(a.pktid@ as int), waiting: m.waiting.remove(a.pktid@ as int), ..m }
            } else { m },
            _ => m,
        }
    }
    pub open spec fn run13(t: Seq<Ev>) -> M13
        decreases t.len(),
    {
        if t.len() == 0 { M13 { ok: true, inflight: Set::empty(), waiting: Multiset::empty() } } else { step13(run13(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run13_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run13(t.push(e)) == step13(run13(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn all_in_flight(t: Seq<Ev>) -> bool { forall|i: int| 1 <= i <= 65535 ==> #[trigger] run13(t).inflight.contains(i) }
    pub open spec fn p13_ok(t: Seq<Ev>) -> bool { run13(t).ok }
    /// the allocator has exactly the ids that are not in flight
    pub open spec fn p13_free(t: Seq<Ev>, ids: crate::pktids::PktIds) -> bool {
        forall|i: int| #![trigger ids.free(i)] #![trigger run13(t).inflight.contains(i)] ids.free(i) <==> 1 <= i <= 65535 && !run13(t).inflight.contains(i)
    }
    /// the queue has exactly the waiting PUBLISH packets
    pub open spec fn p13_queue(t: Seq<Ev>, queue: Seq<(PktId, Box<crate::protocol::Publish>)>) -> bool {
        queue_ids(queue).to_multiset() == run13(t).waiting
    }
    pub open spec fn queue_ids(queue: Seq<(PktId, Box<crate::protocol::Publish>)>) -> Seq<int> {
        queue.map_values(|x: (PktId, Box<crate::protocol::Publish>)| x.0@ as int)
    }
    pub open spec fn p13_end(t: Seq<Ev>, r: End) -> bool {
        &&& run13(t).ok
        &&& (t.len() > 0 && (t.last() matches Ev::Cmd(Some(c)) && needs_id(c)) ==> r is Err && all_in_flight(t))
    }

    // ----- P14: acknowledgements of QoS 1 messages -----
    pub struct M14 { pub ok: bool, pub first: bool, pub due: Option<int> }
    pub open spec fn step14(m: M14, e: Ev) -> M14 {
        match e {
            Ev::Recv(Some(Ok(Packet::Publish(p)))) => M14 {
                ok: m.ok && m.due is None,
                first: false,
                due: if !m.first && p.flags.qos.num() == 1 { Some(match p.pktid { Some(i) => i@ as int, None => 0 }) } else { None },
            },
            Ev::Recv(_) => M14 { ok: m.ok && m.due is None, first: false, ..m },
            Ev::Sent(Packet::PubAck(a)) | Ev::SendFailed(Packet::PubAck(a)) =>
                M14 { ok: m.ok && m.due == Some(a.pktid@ as int) && a.ackw().reason == 0, due: None, ..m },
            _ => m,
        }
    }
    pub open spec fn run14(t: Seq<Ev>) -> M14
        decreases t.len(),
    {
        if t.len() == 0 { M14 { ok: true, first: true, due: None } } else { step14(run14(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run14_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run14(t.push(e)) == step14(run14(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn p14_idle(t: Seq<Ev>) -> bool { run14(t).ok && !run14(t).first && run14(t).due is None }
    pub open spec fn p14_end(t: Seq<Ev>) -> bool { run14(t).ok && run14(t).due is None }

    // ----- P15: commands and the packets they become -----
    pub open spec fn is_request(p: Packet) -> bool { p is Publish || p is Subscribe || p is Unsubscribe || p is Disconnect }
    pub open spec fn carries(c: Command, p: Packet) -> bool {
        match c {
            Command::Publish { topic, payload, properties, qos, retain } => p is Publish && p->Publish_0.pubw() == (Pub {
                dup: false, qos: qos.num(), retain, topic: sb(topic), id: p->Publish_0.pubw().id,
                props: plist(properties@), payload: payload.data(), text: payload is String,
            }),
            Command::Subscribe(topic, qos) => p is Subscribe && p->Subscribe_0.topic@ == topic@ && p->Subscribe_0.qos == qos
                && !p->Subscribe_0.no_local && !p->Subscribe_0.retain_as_published,
            Command::Unsubscribe(topics) => p is Unsubscribe && p->Unsubscribe_0.topics@ == topics@,
            Command::Disconnect => p is Disconnect && p->Disconnect_0.discw().reason == 0,
        }
    }
    pub struct M15 { pub ok: bool, pub asked: Option<Command> }
    pub open spec fn step15(m: M15, e: Ev) -> M15 {
        match e {
            Ev::Cmd(Some(c)) => M15 { ok: m.ok && m.asked is None, asked: Some(c) },
            Ev::Sent(p) | Ev::SendFailed(p) => if is_request(p) {
                M15 { ok: m.ok && (m.asked matches Some(c) && carries(c, p)), asked: None }
            } else { m },
            _ => m,
        }
    }
    pub open spec fn run15(t: Seq<Ev>) -> M15
        decreases t.len(),
    {
        if t.len() == 0 { M15 { ok: true, asked: None } } else { step15(run15(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run15_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run15(t.push(e)) == step15(run15(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn p15_idle(t: Seq<Ev>) -> bool { run15(t).ok && run15(t).asked is None }
    /// only a command for which no packet id is left stays unsent (that none is left: P13)
    pub open spec fn p15_end(t: Seq<Ev>, r: End) -> bool { run15(t).ok && (run15(t).asked matches Some(c) ==> needs_id(c) && r is Err) }

    // ----- P16: keep-alive -----
    pub struct M16 { pub ok: bool, pub keep: nat, pub fired: bool, pub waiting: bool, pub over: bool }
    pub open spec fn step16(m: M16, e: Ev) -> M16 {
        let m = M16 { ok: m.ok && !m.over, ..m };
        match e {
            Ev::Tick { first, period, spaced } => M16 {
                ok: m.ok && !m.fired && first <= m.keep && period <= m.keep && spaced,
                over: m.waiting,
                fired: !m.waiting,
                ..m
            },
            Ev::Sent(Packet::PingReq(_)) => M16 { ok: m.ok && m.fired, fired: false, waiting: true, ..m },
            Ev::SendFailed(Packet::PingReq(_)) => M16 { ok: m.ok && m.fired, fired: false, ..m },
            Ev::Sent(Packet::Connect(c)) => M16 { ok: m.ok && !m.fired, keep: c.keep_alive as nat, ..m },
            Ev::Recv(Some(Ok(Packet::PingResp(_)))) => M16 { ok: m.ok && !m.fired, waiting: false, ..m },
            _ => M16 { ok: m.ok && !m.fired, ..m },
        }
    }
    pub open spec fn run16(t: Seq<Ev>) -> M16
        decreases t.len(),
    {
        if t.len() == 0 { M16 { ok: true, keep: 0, fired: false, waiting: false, over: false } } else { step16(run16(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run16_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run16(t.push(e)) == step16(run16(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn p16_idle(t: Seq<Ev>, pingresp_received: Option<bool>) -> bool {
        run16(t).ok && !run16(t).fired && !run16(t).over && run16(t).waiting == (pingresp_received == Some(false))
    }
    pub open spec fn p16_agree(t: Seq<Ev>, pingresp_received: Option<bool>) -> bool {
        run16(t).waiting == (pingresp_received == Some(false)) && !run16(t).over
    }
    pub open spec fn p16_timer(t: Seq<Ev>, ping: tokio::time::Interval) -> bool {
        ping.first() <= run16(t).keep && ping.period() <= run16(t).keep && ping.spaced()
    }
    pub open spec fn p16_end(t: Seq<Ev>, r: End) -> bool {
        &&& run16(t).ok && !run16(t).fired
        &&& (run16(t).over ==> r is Err && r->Err_0.spec_kind() == std_io::ErrorKind::TimedOut)
        &&& (r is Err && r->Err_0.spec_kind() == std_io::ErrorKind::TimedOut ==> run16(t).over || t.last() is SendFailed || (t.last() matches Ev::Recv(Some(Err(_)))))
    }

    // ----- P17: the handshake -----
    pub enum Phase { Start, Asked, Report(Connack), Open, Closed }
    pub struct M17 { pub ok: bool, pub phase: Phase }
    pub open spec fn step17(m: M17, e: Ev) -> M17 {
        match m.phase {
            Phase::Start => match e {
                Ev::Sent(Packet::Connect(_)) => M17 { phase: Phase::Asked, ..m },
                Ev::SendFailed(Packet::Connect(_)) => M17 { phase: Phase::Closed, ..m },
                _ => M17 { ok: false, ..m },
            },
            Phase::Asked => match e {
                Ev::Recv(Some(Ok(Packet::Connack(p)))) => M17 { phase: Phase::Report(p), ..m },
                Ev::Recv(_) => M17 { phase: Phase::Closed, ..m },
                _ => M17 { ok: false, ..m },
            },
            Phase::Report(p) => match e {
                Ev::Notified(Notification::ConnAck(q)) => M17 { ok: m.ok && p == q, phase: if p.connw().reason == 0 { Phase::Open } else { Phase::Closed } },
                _ => M17 { ok: false, ..m },
            },
            Phase::Open => match e {
                Ev::Sent(Packet::Connect(_)) | Ev::SendFailed(Packet::Connect(_)) => M17 { ok: false, ..m },
                _ => m,
            },
            Phase::Closed => M17 { ok: false, ..m },
        }
    }
    pub open spec fn run17(t: Seq<Ev>) -> M17
        decreases t.len(),
    {
        if t.len() == 0 { M17 { ok: true, phase: Phase::Start } } else { step17(run17(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run17_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run17(t.push(e)) == step17(run17(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn p17_open(t: Seq<Ev>) -> bool { run17(t).ok && run17(t).phase is Open }
    pub open spec fn p17_end(t: Seq<Ev>, r: End) -> bool {
        run17(t).ok && (run17(t).phase is Open || run17(t).phase is Closed) && (run17(t).phase is Closed ==> r is Err)
    }

    // ----- P18: the end of a session -----
    pub struct M18 { pub ok: bool, pub done: bool }
    pub open spec fn ends(e: Ev) -> bool {
        match e {
            Ev::SendFailed(_) => true,
            Ev::Sent(Packet::Disconnect(_)) => true,
            Ev::Recv(None) => true,
            Ev::Recv(Some(Err(_))) => true,
            Ev::Recv(Some(Ok(Packet::Disconnect(_)))) => true,
            Ev::Recv(Some(Ok(Packet::Publish(m)))) => m.flags.qos.num() == 2,
            _ => false,
        }
    }
    pub open spec fn step18(m: M18, e: Ev) -> M18 { M18 { ok: m.ok && !m.done, done: ends(e) } }
    pub open spec fn run18(t: Seq<Ev>) -> M18
        decreases t.len(),
    {
        if t.len() == 0 { M18 { ok: true, done: false } } else { step18(run18(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run18_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run18(t.push(e)) == step18(run18(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn p18_idle(t: Seq<Ev>) -> bool { run18(t).ok && !run18(t).done }
    pub open spec fn p18_end(t: Seq<Ev>, r: End) -> bool {
        run18(t).ok && t.len() > 0 && match t.last() {
            Ev::Sent(Packet::Disconnect(_)) => r is Ok,
            Ev::Sent(_) => false,
            Ev::SendFailed(_) => r is Err,
            Ev::Recv(None) => r is Ok <==> run17(t).phase is Open,
            Ev::Recv(Some(Err(_))) => r is Err,
            Ev::Recv(Some(Ok(p))) => if run17(t).phase is Closed { r is Err } else {
                match p {
                    Packet::Disconnect(d) => r is Ok <==> d.discw().reason == 0,
                    Packet::Publish(p) => r is Err && p.flags.qos.num() == 2,
                    _ => false,
                }
            },
            Ev::Notified(_) => r is Err && run17(t).phase is Closed,
            Ev::Cmd(Some(c)) => r is Err && needs_id(c) && all_in_flight(t),
            Ev::Cmd(None) => false,
            Ev::Tick { first, period, spaced } => r is Err && run16(t).over,
            Ev::Wait { .. } => false,
            Ev::Held(_) => false,
        }
    }

    // ----- P19: notifications -----
    pub struct M19 { pub ok: bool, pub first: bool, pub due: Option<Packet> }
    pub open spec fn reported(first: bool, p: Packet) -> bool {
        match p {
            Packet::Connack(_) => true,
            Packet::Publish(m) => !first && m.flags.qos.num() < 2,
            Packet::SubAck(_) => !first,
            Packet::UnsubAck(_) => !first,
            _ => false,
        }
    }
    pub open spec fn tells(p: Packet, n: Notification) -> bool {
        match p {
            Packet::Connack(c) => n == Notification::ConnAck(c) || (n matches Notification::Message(s) && s@ == debug_text(p)),
            Packet::Publish(m) => n matches Notification::Message(s) && s@ == debug_text(m),
            Packet::SubAck(m) => n matches Notification::SubAck(s) && s@ == debug_text(m),
            Packet::UnsubAck(m) => n matches Notification::UnsubAck(s) && s@ == debug_text(m),
            _ => false,
        }
    }
    pub open spec fn step19(m: M19, e: Ev) -> M19 {
        match e {
            Ev::Recv(Some(Ok(p))) => M19 { ok: m.ok && m.due is None, first: false, due: if reported(m.first, p) { Some(p) } else { None } },
            Ev::Recv(_) => M19 { ok: m.ok && m.due is None, first: false, ..m },
            Ev::Notified(n) => M19 { ok: m.ok && (m.due matches Some(p) && tells(p, n)), due: None, ..m },
            _ => m,
        }
    }
    pub open spec fn run19(t: Seq<Ev>) -> M19
        decreases t.len(),
    {
        if t.len() == 0 { M19 { ok: true, first: true, due: None } } else { step19(run19(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run19_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run19(t.push(e)) == step19(run19(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn p19_idle(t: Seq<Ev>) -> bool { run19(t).ok && run19(t).due is None && !run19(t).first }
    /// only a message whose PUBACK could not be written goes unreported
    pub open spec fn p19_end(t: Seq<Ev>) -> bool { run19(t).ok && (run19(t).due is Some ==> t.len() > 0 && t.last() is SendFailed) }

    // ----- P22: what has ended is not asked again (the other half is a precondition of `next`) -----
    pub open spec fn p22_closed(t: Seq<Ev>, commands_closed: bool) -> bool {
        commands_closed == t.contains(Ev::Cmd(None)) && !t.contains(Ev::Recv(None))
    }

    // ----- P23: whenever the session waits, it waits for everything that may come, and owes nothing -----
    pub struct M23 { pub ok: bool, pub hello: bool, pub picked: bool, pub closed: bool, pub ask: bool, pub ack: bool, pub note: bool }
    pub open spec fn step23(m: M23, e: Ev) -> M23 {
        match e {
            Ev::Wait { tick, read, cmd, fair } => M23 {
                ok: m.ok && tick && read && (cmd || m.closed) && fair && !m.ask && !m.ack && !m.note,
                picked: true,
                ..m
            },
            // only the handshake's answer is waited for on its own
            Ev::Recv(x) => M23 {
                ok: m.ok && (m.picked || !m.hello),
                picked: false,
                hello: true,
                ack: m.hello && (x matches Some(Ok(Packet::Publish(p))) && p.flags.qos.num() == 1),
                note: x matches Some(Ok(p)) && reported(!m.hello, p),
                ..m
            },
            Ev::Tick { first, period, spaced } => M23 { ok: m.ok && m.picked, picked: false, ..m },
            Ev::Cmd(c) => M23 { ok: m.ok && m.picked, picked: false, closed: m.closed || c is None, ask: c is Some, ..m },
            Ev::Notified(_) => M23 { note: false, ..m },
            Ev::Sent(Packet::PubAck(_)) => M23 { ack: false, ..m },
            Ev::Sent(p) => if is_request(p) { M23 { ask: false, ..m } } else { m },
            Ev::SendFailed(_) | Ev::Held(_) => m,
        }
    }
    pub open spec fn run23(t: Seq<Ev>) -> M23
        decreases t.len(),
    {
        if t.len() == 0 { M23 { ok: true, hello: false, picked: false, closed: false, ask: false, ack: false, note: false } } else { step23(run23(t.drop_last()), t.last()) }
    }
    pub broadcast proof fn run23_push(t: Seq<Ev>, e: Ev)
        ensures #[trigger] run23(t.push(e)) == step23(run23(t), e),
    {
        assert(t.push(e).drop_last() =~= t);
    }
    pub open spec fn p23_idle(t: Seq<Ev>, commands_closed: bool) -> bool {
        let m = run23(t);
        m.ok && m.hello && !m.picked && !m.ask && !m.ack && !m.note && m.closed == commands_closed
    }
    pub open spec fn p23_end(t: Seq<Ev>) -> bool { run23(t).ok }

    // ----- lemmas -----
    pub broadcast proof fn contains_push(t: Seq<Ev>, e: Ev, x: Ev)
        ensures #[trigger] t.push(e).contains(x) <==> t.contains(x) || e == x,
    {
        if t.contains(x) {
            let i = choose|i: int| 0 <= i < t.len() && t[i] == x;
            assert(t.push(e)[i] == x);
        }
        if e == x { assert(t.push(e)[t.len() as int] == x); }
    }
    pub broadcast proof fn queue_push(q: Seq<(PktId, Box<crate::protocol::Publish>)>, x: (PktId, Box<crate::protocol::Publish>))
        ensures #[trigger] queue_ids(q.push(x)).to_multiset() == queue_ids(q).to_multiset().insert(x.0@ as int),
    {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(queue_ids(q.push(x)) =~= queue_ids(q).push(x.0@ as int));
    }
    pub broadcast proof fn queue_remove(q: Seq<(PktId, Box<crate::protocol::Publish>)>, i: int)
        requires 0 <= i < q.len(),
        ensures #[trigger] queue_ids(q.remove(i)).to_multiset() == queue_ids(q).to_multiset().remove(q[i].0@ as int),
    {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(queue_ids(q)[i] == q[i].0@ as int);
        assert(queue_ids(q.remove(i)) =~= queue_ids(q).remove(i));
    }
    pub proof fn queue_count(q: Seq<(PktId, Box<crate::protocol::Publish>)>, id: int)
        ensures queue_ids(q).to_multiset().count(id) > 0 <==> exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0@ == id,
    {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        if queue_ids(q).to_multiset().count(id) > 0 {
            assert(queue_ids(q).contains(id));
            let i = choose|i: int| 0 <= i < queue_ids(q).len() && queue_ids(q)[i] == id;
            assert(q[i].0@ == id);
        }
        if exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0@ == id {
            let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0@ == id;
            assert(queue_ids(q)[i] == id);
            assert(queue_ids(q).contains(id));
        }
    }
    pub proof fn queue_empty(q: Seq<(PktId, Box<crate::protocol::Publish>)>)
        requires q.len() == 0,
        ensures queue_ids(q).to_multiset() =~= Multiset::empty(),
    {
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        assert(queue_ids(q) =~= Seq::<int>::empty());
    }
    pub broadcast group session {
        run13_push, run14_push, run15_push, run16_push, run17_push, run18_push, run19_push, run23_push, contains_push, queue_push, queue_remove, crate::vxm::flush_last,
    }
}

} // verus!
