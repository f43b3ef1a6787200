## one session: the event loop after the TCP connection is there

#fn poll
#ret r
#attr #[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)]
#spec
    requires old(vx_w).t.len() == 0,
    ensures
        true,
@P13        crate::vxt::p13_end(final(vx_w).t, r),
@P14        crate::vxt::p14_end(final(vx_w).t),
@P15        crate::vxt::p15_end(final(vx_w).t, r),
@P16        crate::vxt::p16_end(final(vx_w).t, r),
@P17        crate::vxt::p17_end(final(vx_w).t, r),
@P18        crate::vxt::p18_end(final(vx_w).t, r),
@P19        crate::vxt::p19_end(final(vx_w).t),
@P23        crate::vxt::p23_end(final(vx_w).t),
#entry
    hide(crate::pktids::PktIds::wf);
    hide(crate::pktids::PktIds::free);
    broadcast use crate::vxt::session, crate::vxs::lib::plist_fits, crate::vxs::lib::utf8_bound, crate::vxm::tokio::time::ax_instant_plus;
    $literals
#before-loop 0
@P13,P18    proof { crate::vxt::queue_empty(queue@); }
@P16    let ghost vx_t0 = vx_w.t;
#loop 0
    invariant
        pktids.wf(),
        crate::vxt::p22_closed(vx_w.t, commands_closed),
@P13        crate::vxt::p13_ok(vx_w.t),
@P13,P18        crate::vxt::p13_free(vx_w.t, pktids),
@P13,P18        crate::vxt::p13_queue(vx_w.t, queue@),
@P14        crate::vxt::p14_idle(vx_w.t),
@P15        crate::vxt::p15_idle(vx_w.t),
@P16        crate::vxt::p16_idle(vx_w.t, pingresp_received),
@P18        crate::vxt::p16_agree(vx_w.t, pingresp_received),
@P16        crate::vxt::p16_timer(vx_w.t, ping),
@P16        crate::vxt::run16(vx_w.t).keep == crate::vxt::run16(vx_t0).keep,
@P17,P18        crate::vxt::p17_open(vx_w.t),
@P18        crate::vxt::p18_idle(vx_w.t),
@P19        crate::vxt::p19_idle(vx_w.t),
@P23        crate::vxt::p23_idle(vx_w.t, commands_closed),
#loop 1
    invariant
        vx_pos is Some ==> queue@[vx_pos->0 as int].0@ == m.pktid@,
        vx_pos is None ==> forall|j: int| 0 <= j < vx_n ==> queue@[j].0@ != m.pktid@,
#before-loop 1
@P13,P18    proof { crate::vxt::queue_count(queue@, m.pktid@ as int); }
#fn no_free_pktid
#ret r
#spec
    ensures r.spec_kind() != crate::vxm::std_io::ErrorKind::TimedOut,
