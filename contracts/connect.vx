## the event loop: TCP connect, then one session

#mod crate
/// The future which calling `poll` gives; its body is verified as `poll`.
#[verifier::external_body]
pub fn vx_async_poll(mqtt_read: FramedRead<OwnedReadHalf, mqtt_codec::MqttCodec>, mqtt_write: FramedWrite<OwnedWriteHalf, mqtt_codec::MqttCodec>,
    commands_rx: Receiver<Command>, sender: Sender<Notification>) -> (r: crate::vxm::Async<IOResult<()>>)
    ensures
        r.polls().len() == 0,
        r.session() == Some(crate::vxm::Session { read: mqtt_read.half(), write: mqtt_write.half(), commands: commands_rx.chan(), notifications: sender.chan() }),
{ unimplemented!() }
pub open spec fn p24_connecting<F: TCPConnectFuture>(s: EventLoopState<F>) -> F { match s { EventLoopState::NotConnected { f } => f, _ => arbitrary() } }
pub open spec fn p24_session<F: TCPConnectFuture>(s: EventLoopState<F>) -> crate::vxm::Async<IOResult<()>> { match s { EventLoopState::MqttConnected { f } => f.f, _ => arbitrary() } }
/// a session on the stream, with the event loop's own channels
pub open spec fn p24_on(x: crate::vxm::Async<IOResult<()>>, s: TcpStream, commands: int, notifications: int) -> bool {
    x.session() matches Some(y) && y.read.stream() == s && y.write.stream() == s && y.commands == commands && y.notifications == notifications
}
/// the session is polled once more, and what that gives is what the event loop gives
pub open spec fn p24_passed_on(before: Seq<Poll<IOResult<()>>>, now: crate::vxm::Async<IOResult<()>>, r: Poll<AnyResult<()>>) -> bool {
    &&& now.polls().len() == before.len() + 1 && now.polls().drop_last() =~= before
    &&& match now.polls().last() {
        Poll::Pending => r is Pending,
        Poll::Ready(Ok(_)) => r is Ready && r->Ready_0 is Ok,
        Poll::Ready(Err(_)) => r is Ready && r->Ready_0 is Err,
    }
}

#impl <MQTTFuture as Future>
    open spec fn poll_pre(self) -> bool { self.f.poll_pre() }
    open spec fn poll_post(old: Self, new: Self, r: Poll<IOResult<()>>) -> bool { crate::vxm::Async::poll_post(old.f, new.f, r) }

#impl <EventLoop<A,F> as Future>
    open spec fn poll_pre(self) -> bool {
        match self.state {
            EventLoopState::NotConnected { f } => f.poll_pre() && self.commands_rx is Some,
            EventLoopState::MqttConnected { f } => f.poll_pre(),
        }
    }
    open spec fn poll_post(old: Self, new: Self, r: Poll<AnyResult<()>>) -> bool {
        match old.state {
            EventLoopState::NotConnected { f } => exists|f2: F, c: Poll<IOResult<TcpStream>>| #[trigger] F::poll_post(f, f2, c) && match c {
                Poll::Pending => r is Pending && new.state == (EventLoopState::NotConnected::<F> { f: f2 })
                    && new.commands_rx == old.commands_rx && new.notifications_tx.chan() == old.notifications_tx.chan(),
                Poll::Ready(Err(e)) => r is Ready && r->Ready_0 is Err && new.state is NotConnected,
                Poll::Ready(Ok(s)) => new.state is MqttConnected && p24_on(p24_session(new.state), s, old.commands_rx->0.chan(), old.notifications_tx.chan())
                    && p24_passed_on(Seq::empty(), p24_session(new.state), r),
            },
            EventLoopState::MqttConnected { f } => new.state is MqttConnected && p24_session(new.state).session() == f.f.session()
                && p24_passed_on(f.f.polls(), p24_session(new.state), r),
        }
    }

#fn <EventLoop<A,F> as Future>::poll
#attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
#ret r
#entry
    let ghost vx_f0 = p24_connecting(self.state);
#loop 0
    invariant
        me.poll_pre(),
        old(self).state is MqttConnected ==> me == old(self),
        me.state is NotConnected ==> me == old(self),
        me.state is MqttConnected && old(self).state is NotConnected ==> p24_session(me.state).polls().len() == 0
            && exists|f2: F, s: TcpStream| #[trigger] F::poll_post(vx_f0, f2, Poll::Ready(Ok(s)))
                && p24_on(p24_session(me.state), s, old(self).commands_rx->0.chan(), old(self).notifications_tx.chan()),

#fn client::Client::new
#ret r
#spec
    ensures
        r.1.commands_rx is Some && r.0.tx.chan() == r.1.commands_rx->0.chan(),
        r.1.notifications_tx.chan() == r.2.chan(),
        match r.1.state {
            crate::EventLoopState::NotConnected { f } => f.fresh()
                && (f.address() == crate::vxm::owned_of(address) || cloned(crate::vxm::owned_of(address), f.address())),
            _ => false,
        },
