CHECKS = {}
def C(pid, note, entries, outside="", assume=""):
    CHECKS[pid] = dict(note=note, entries=entries, outside=outside, assume=assume)
def E(h, e, what="", **k): return dict(h=h, e=e, what=what, **k)
CH = [E("channel", "h_chan_"+e, params=dict(n=9), params_thorough=dict(n=12)) for e in "int opt thr tr trn mo mot".split()] + [E("channel", "h_chan_flow", params_thorough=dict(p=3,m=2)), E("channel", "h_chan_flow", params=dict(p=3,q=2,m=1)), E("channel", "h_chan_flow", params=dict(p=1,q=1,m=4)), E("channel", "h_chan_wrap", params_thorough=dict(n=20))] + [E("channel", "h_chan_"+e) for e in "plain relay".split()]
C("C01", "x", CH + [E("channel@ks", "h_chan_int", params=dict(n=5)), E("channel@ks", "h_chan_wrap")])
C("C02", "x", CH)
C("C05", "x", [E("event", "h_ev_ops", params=dict(n=7), params_thorough=dict(n=9)), E("event", "h_ev_ops", params=dict(lazy=1,n=5), params_thorough=dict(n=6)), E("event","h_ev_sched", params=dict(n=6), params_thorough=dict(n=9)), E("event","h_ev_life"),E("event","h_ev_gone")])
C("C06", "x", [E("event", "h_ev_timed", params=dict(n=4), params_thorough=dict(n=6)), E("event","h_ev_timed_all")])
C("C07", "x", [E("event", "h_ev_all", params_thorough=dict(n=5)), E("event", "h_ev_all", params=dict(timed=1,n=3), params_thorough=dict(n=4)), E("event","h_ev_all2")])
T = dict(threaded=True)
C("C11", "x", [E("spin","h_spin_ops"),E("spin_phase","h_spin_phase",nospin=True), E("spin","h_spin_threads", race=True, nodedup=True,  params=dict(t=1,rounds=2), preempt=4, **T), E("spin","h_spin_threads", race=True, nodedup=True,  params=dict(t=2,rounds=2), preempt=2, **T), E("spin","h_spin_threads",params=dict(t=2,rounds=2),preempt=5,**T), E("spin","h_spin_threads",params=dict(t=3,rounds=1),preempt=4,**T), E("spin","h_spin_wait",race=True, nodedup=True, preempt=4,**T), E("spin","h_spin_msg",race=True, nodedup=True, preempt=4,**T)])
C("C03","x",[E("channel_mt",e,preempt=2 if e in ("h_chmt_ww","h_chmt_three") else 3,thorough=dict(preempt=5),**T) for e in "h_chmt_wr h_chmt_ww h_chmt_mutex h_chmt_uneven h_chmt_order h_chmt_three".split()])
C("C08","x",[E("mutex","h_mx_ops",params_thorough=dict(n=6)),E("mutex","h_mx_excl",params_thorough=dict(n=4))])
C("C09","x",[E("mutex","h_mx_timed",params_thorough=dict(n=5)),E("mutex","h_mx_plain_timed")])
C("C10","x",[E("batch","h_batch_mock",params=dict(n=5,fails=4),params_thorough=dict(n=6)),E("batch","h_batch_mock",params=dict(thr=1,n=4)),E("batch","h_batch_assign"),E("batch","h_batch_guard"),E("batch","h_batch_co"),E("batch","h_batch_co",params=dict(k=2)),E("batch","h_batch_addr")])
C("C12","x",[E("timer","h_tm_ops",params_thorough=dict(n=6)),E("timer","h_tm_ops",params=dict(acts=1,n=3),params_thorough=dict(n=4)),E("timer","h_tm_order",params_thorough=dict(n=5)),E("timer","h_tm_moving",params_thorough=dict(k=3)),E("timer","h_tm_ops",params=dict(n=4,scale=40)),E("timer@st","h_tm_ops",params=dict(n=4)),E("timer@st","h_tm_ops",params=dict(acts=1,n=2),params_thorough=dict(n=3))]
 +[E("timer_mt","h_tmmt_"+e,preempt=4,thorough=dict(preempt=6),**T) for e in "stop add gone".split()]+[E("timer_mt","h_tmmt_stop",params=dict(n=2),preempt=3,thorough=dict(preempt=4),**T),E("timer_mt","h_tmmt_stop",params=dict(two=1),preempt=2,thorough=dict(preempt=3),**T)])
C("C13","x",[E("timer","h_sl_ops",params=dict(adv=0),params_thorough=dict(adv=1)),E("timer","h_sl_ops",params=dict(style=1,n=2),params_thorough=dict(n=3)),E("timer","h_sl_order",params=dict(n=5)),E("timer","h_sl_loop"),E("timer","h_sl_ops",params=dict(style=1,n=2,scale=40)),E("timer@st","h_sl_ops",params=dict(style=1,n=2))])
C("C14","x",[E("awaitable","h_"+e) for e in "aw_int aw_void aw_ref aw_tr aw_mo co_int co_void co_ref co_tr co_mo aw_task aw_throwing aw_started".split()]+[E("awaitable","h_aw_many",params_thorough=dict(n=4))])
C("C16","x",[E("generator","h_gen_"+e,params=dict(n=6)) for e in "int tr mo tmp".split()]+[E("generator","h_gen_two",params=dict(n=11)),E("generator","h_gen_sched",params=dict(k=4))])
SK=[E("stop","h_stop_life",params=dict(n=7,c=3),params_thorough=dict(n=9,c=3)),E("stop","h_stop_life",params=dict(n=6,rich=1),params_thorough=dict(n=8,rich=1)),E("stop","h_stop_acts"),E("stop","h_stop_ends"),E("stop","h_stop_make"),E("stop","h_stop_refs"),E("stop","h_stop_task")]
C("C20","x",SK)
C("C21","x",SK)
C("C22","x",[E("stop_mt","h_stopmt_"+e,preempt=4 if e=="two" else 6,thorough=dict(preempt=6 if e=="two" else 9),**T) for e in "reg pre req two refs self make".split()]+[E("stop_mt","h_stopmt_"+e,preempt=3,race=True,nodedup=True,**T) for e in "pre req refs self".split()])
C("C17","x",[E("sched","h_sc_prog",params_thorough=dict(n=7)),E("sched","h_sc_until",params_thorough=dict(n=4))]+[E("sched","h_sc_"+e) for e in "stopped nested coyield coyield_ref capture many".split()]+[E("generator","h_gen_sched"),E("sched@st","h_sc_prog",params=dict(n=5)),E("sched@st","h_sc_until",params=dict(n=2)),E("sched_mt","h_scmt_until",preempt=2,fair=80,**T)])
C("C18","x",[E("sched_mt","h_scmt_"+e,preempt=3,thorough=dict(preempt=5),**T) for e in "start wake empty cross".split()]+[E("sched_mt","h_scmt_until",preempt=2,fair=80,thorough=dict(preempt=4),**T)]+[E("sched_mt","h_scmt_start",params=dict(t=2,k=1),preempt=2,thorough=dict(preempt=4),**T)])
C("C15","x",[E("await_mt","h_awmt_"+e,preempt=4,thorough=dict(preempt=6),**T) for e in "int void tr ref".split()]+[E("await_mt","h_awmt_int",params=dict(nest=1),preempt=3,thorough=dict(preempt=5),**T)]+[E("await_mt","h_awmt_"+e,preempt=3,thorough=dict(preempt=5),**T) for e in "pass many drop task".split()])
V=[E("via","h_via_prog",params=dict(k=2,n=6),params_thorough=dict(n=8)),E("via","h_via_prog",params=dict(k=3,n=5),params_thorough=dict(n=7)),E("via","h_via_prog",params=dict(k=2,n=4,t=2,r=4),params_thorough=dict(n=5,r=6))]
C("C19","x",V+[E("via","h_via_count"),E("via","h_via_result"),E("via","h_via_waits")]+[E("via_mt","h_viamt_"+e,preempt=2,thorough=dict(preempt=4),**T) for e in "one back two".split()])
C("C28","x",[E("via","h_cur_prog",params=dict(n=5),params_thorough=dict(n=7))]+V)

C("C26","x",[E("queues","h_ring_"+e,params=dict(k=11),params_thorough=dict(k=14)) for e in "int small tr tropt mo mon wide move".split()]+[E("queues@ks","h_ring_"+e,params=dict(k=9),params_thorough=dict(k=12)) for e in "int small tropt".split()])
C("C27","x",[E("queues","h_link",params=dict(k=7),params_thorough=dict(k=9)),E("queues","h_link_counted",params=dict(k=6),params_thorough=dict(k=8)),E("queues","h_counted",params=dict(k=3),params_thorough=dict(k=4))])
C("C23","x",[E("when","h_when_"+e,params=dict(n=4)) for e in "all any".split()]+[E("when","h_when_"+e) for e in "mixed waits later stored throw".split()]+[E("when_mt","h_whenmt_"+e,preempt=3 if e=="all1" else 2,thorough=dict(preempt=4),**T) for e in "all all1 any bool throw throwany".split()])
C("C25","x",[E("exc","h_exc_prog",params=dict(n=5),params_thorough=dict(n=6)),E("exc","h_exc_prog",params=dict(n=5,t=2),params_thorough=dict(n=6))]+[E("exc","h_exc_"+e) for e in "task result shared".split()]+[E("awaitable","h_co_tr"),E("awaitable","h_co_ref"),E("awaitable","h_co_void")])
C("C29","x",[E("local","h_local_seq",params=dict(n=5),params_thorough=dict(n=7),**T),E("local","h_local_main"),E("local","h_local_two",params=dict(points=1,slots=1,ext=1,n=2),params_thorough=dict(n=3),preempt=3,thorough=dict(preempt=4),**T)])
C("C31","x",[E("stopall","h_sa_prog",params_thorough=dict(t=3)),E("stopall","h_sa_future"),E("stopall","h_sa_timers"),E("stopall@st","h_sa_timers"),E("stopall@st","h_sa_prog",params=dict(n=1))])
C("C30","x",[E("event_mt",e,preempt=3,thorough=dict(preempt=5),**T) for e in "h_evmt_wait h_evmt_two h_evmt_timed h_evmt_all h_evmt_reset h_evmt_drop h_mxmt_plain h_mxmt_two h_mxmt_timed h_mxmt_batch".split()]+[E("event_mt","h_evmt_all",params=dict(timed=1),preempt=3,thorough=dict(preempt=5),**T),E("event_mt","h_evmt_all",params=dict(both=1),preempt=2,thorough=dict(preempt=4),**T),*[E("event_mt",e,preempt=2,race=True,nodedup=True,**T) for e in "h_evmt_wait h_evmt_drop h_mxmt_plain h_evmt_all".split()],E("event_mt","h_evmt_reset",params=dict(r=4),preempt=8,**T),E("event_mt","h_mxmt_batchp",preempt=3,fair=80,thorough=dict(preempt=5),**T)])
C("C24","x",[E("life","h_life_"+e) for e in "future unstarted chanop yields".split()]+[E("life","h_life_"+e,params=dict(n=5)) for e in "prim time".split()]+[E("life","h_life_future",params=dict(n=5),thorough_only=True),E("life","h_life_prim",params=dict(n=6),thorough_only=True),E("life","h_life_time",params=dict(n=6),thorough_only=True)]
 +[E("channel","h_chan_tr"),E("channel","h_chan_wrap"),E("event","h_ev_gone"),E("event","h_ev_life"),E("mutex","h_mx_timed"),E("generator","h_gen_tr"),E("awaitable","h_aw_tr"),E("awaitable","h_co_tr"),E("awaitable","h_aw_started"),E("sched","h_sc_capture"),E("exc","h_exc_result"),E("queues","h_counted",params=dict(k=3)),E("stop","h_stop_refs"),E("when","h_when_later"),E("when","h_when_drop"),E("when","h_when_drop_bool")]
 +[E("channel_mt","h_chmt_ww",preempt=2,**T),E("await_mt","h_awmt_drop",preempt=3,**T),E("event_mt","h_evmt_drop",preempt=3,**T),E("event_mt","h_evmt_all",preempt=3,**T)])

C("C33","x",[E("asio","h_asio_"+e) for e in "ec ep ec_int ep_tr ec_pair ep_pair void int tr pair chain".split()]+[E("asio","h_asio_many",params_thorough=dict(n=4))]+[E("asio_io","h_asio_post"),E("asio_io","h_asio_timer"),E("asio","h_asio_mt",preempt=4,thorough=dict(preempt=6),**T)])
C("C34","x",[E("errors","h_err_keep",params=dict(n=2),params_thorough=dict(n=3)),E("errors","h_err_text",tls=True),E("errors","h_err_raise"),E("errors@nd","h_err_unawaited"),E("errors","h_err_mt",preempt=3,thorough=dict(preempt=5),**T)])
C("C35","x",[E(h,p+e,race=True,nodedup=True,preempt=2,thorough=dict(preempt=3),**T) for h,p,L in (("await_mt","h_awmt_","int void tr ref pass many drop task"),("sched_mt","h_scmt_","start wake empty cross"),("channel_mt","h_chmt_","wr ww mutex uneven order"),("event_mt","h_evmt_","wait two timed all reset drop"),
 ("event_mt","h_mxmt_","plain two timed batch batchp"),("timer_mt","h_tmmt_","stop add gone"),("stop_mt","h_stopmt_","reg pre req refs self make"),("via_mt","h_viamt_","one back two"),("mix_mt","h_mix_","pipe stop carry"),("when_mt","h_whenmt_","all all1 any bool throw throwany"),("asio","h_asio_","mt"),("errors","h_err_","mt"),("spin","h_spin_","wait msg")) for e in L.split()]
 +[E("channel_mt","h_chmt_three",race=True,nodedup=True,preempt=1,thorough=dict(preempt=2),**T),E("sched_mt","h_scmt_until",fair=80,race=True,nodedup=True,preempt=2,thorough=dict(preempt=3),**T),E("await_mt","h_awmt_int",params=dict(nest=1),race=True,nodedup=True,preempt=2,thorough=dict(preempt=2),**T),E("event_mt","h_evmt_all",params=dict(timed=1),race=True,nodedup=True,preempt=2,thorough=dict(preempt=2),**T),E("local","h_local_two",params=dict(points=1,slots=1,ext=1,n=2),race=True,nodedup=True,preempt=1,**T)])
C("C32","x",[E("bytes","h_bytes",params_thorough=dict(k=4,n=3))])
for _p, _l in dict(C01="chan",C02="chan",C05="signals waiters",C06="waiters",C07="all",C08="locks",C12="timers",C13="sleepers",C14="refs deep",C16="gen",C20="stops",C21="stops",C23="when",C24="refs",C25="deep",C19="via",C28="via").items(): CHECKS[_p]["entries"] += [E("many","h_many_"+_e,max_ins=60000000) for _e in _l.split()]
import os, importlib.util as _iu
_s = _iu.spec_from_file_location("notes", os.path.join(os.path.dirname(os.path.abspath(__file__)), "notes.py")); _m = _iu.module_from_spec(_s); _s.loader.exec_module(_m)
for _p, _c in CHECKS.items(): _c["note"], _c["outside"], _c["assume"] = _m.N[_p]
_m = lambda e, **k: E("event_mt", e, preempt=2, thorough=dict(preempt=4), **k, **T)
for _p, _l in dict(C05=[_m("h_evmt_two"), _m("h_evmt_reset")], C06=[_m("h_evmt_timed")], C07=[_m("h_evmt_all", params=dict(timed=1))], C09=[_m("h_mxmt_timed")], C10=[_m("h_mxmt_batch")]).items(): CHECKS[_p]["entries"] += _l
CHECKS["C30"]["entries"] += [E("mix_mt", "h_mix_" + _e, preempt=2, thorough=dict(preempt=3), **T) for _e in "pipe stop carry".split()]
