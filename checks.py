"""Which workloads decide which property."""
def W(file, name, **k): return dict(file=file, name=name, **k)
TH, CA, CU, AS = 'w_thread.c', 'w_cancel.c', 'w_cleanup.c', 'w_async.c'
MU, RO, RW, CV, SE, SP, BA, ON = 'w_mutex.c', 'w_robust.c', 'w_rwlock.c', 'w_cond.c', 'w_sem.c', 'w_spin.c', 'w_barrier.c', 'w_once.c'
TD, TI, ST = 'w_tsd.c', 'w_timed.c', 'w_static.c'
IM, AT, SD, NM = 'w_implicit.c', 'w_attr.c', 'w_sched.c', 'w_names.c'
CHECKS = {
 'P01': dict(works=[W(MU, 'mutex_excl', eps=2000), W(MU, 'mutex_lastout', eps=2000), W(MU, 'mutex_model', eps=1000), W(RO, 'robust_stress', eps=1000)], require={'last_out_destroys': 1000}),
 'P02': dict(works=[W(MU, 'mutex_model', eps=2000, weight=2), W(MU, 'mutex_excl', eps=1000), W(RO, 'robust_stress', eps=1000)], require={'robust_models': 1000, 'unlock_free': 500, 'handover': 500}),
 'P03': dict(works=[W(RO, 'robust_stress', eps=2000, weight=2), W(RO, 'robust_lastout', eps=2000), W(RO, 'robust_heirs', eps=3000), W(MU, 'mutex_model', eps=1000)], require={'robust_died_before_last': 500, 'ownerdead': 500, 'made_notrecoverable': 50}),
 'P05': dict(works=[W(RW, 'rw_stress', eps=2000), W(RW, 'rw_model', eps=2000), W(RW, 'rw_aged', eps=1500), W(RW, 'rw_folding', eps=1500)]),
 'P06': dict(works=[W(CV, 'cond_stress', eps=2000, weight=2), W(CV, 'cond_bcast', eps=1000), W(CV, 'cond_tickets', eps=1000, weight=2), W(CV, 'cond_busy', eps=600), W(CV, 'cond_lastout', eps=1000), W(CV, 'cond_model', eps=2000), W(CV, 'cond_timechange', eps=1200)], require={'cancelled_in_wait': 500, 'timed_out': 500, 'early_destroys': 500, 'timechanges': 100, 'time_changes': 500}),
 'P07': dict(works=[W(SE, 'sem_stress', eps=2000, weight=2), W(SE, 'sem_pass', eps=4000), W(SE, 'sem_model', eps=2000)], require={'cancelled_in_wait': 200, 'post_max': 20}),
 'P04': dict(works=[W(SP, 'spin_stress', eps=2000), W(SP, 'spin_model', eps=2000)]),
 'P08': dict(works=[W(BA, 'barrier_rounds', eps=2000), W(BA, 'barrier_groups', eps=2000), W(BA, 'barrier_destroy', eps=2000)]),
 'P09': dict(works=[W(ON, 'once', eps=2000), W(ON, 'once_retry', eps=2000)]),
 'P10': dict(works=[W(TH, 'thread_life', eps=1200, weight=3), W(TH, 'thread_edges', eps=2000), W(TH, 'thread_kill', eps=1500), W(TH, 'thread_reuse', eps=1500, weight=3)], require={'killed': 500, 'joins': 5000, 'detaches': 500, 'stale_ids': 5000, 'join_timeouts': 500}),
 'P11': dict(works=[W(CA, 'cancel_deferred', eps=1400, weight=2), W(AS, 'cancel_async', eps=2000), W(AS, 'cancel_async_self', eps=2000), W('w_cmodel.c', 'cancel_model', eps=800, weight=2)], require={'cancelled': 1000, 'cp_returned': 500, 'ended_with_pending_request': 50, 'undisturbed_ops': 1000, 'model_acted': 1000, 'ended_pending': 100}),
 'P12': dict(works=[W(CU, 'cleanup_tree', eps=2000), W(CU, 'cleanup_cp', eps=2000), W(CU, 'cleanup_uncaught', eps=1500, modes=['cxx'])], require={'handlers': 2000, 'cancelled_in_handler': 100, 'uncaught': 500}),
 'P23': dict(works=[W(TH, 'thread_ids', eps=800), W(TH, 'thread_ids_par', eps=600), W(TH, 'thread_ids_long', eps=2, teps=25)], require={'ids_compared': 1000}),
 'P13': dict(works=[W(TD, 'tsd_life', eps=1500, weight=2), W(TD, 'tsd_delete', eps=2000, weight=2), W(TD, 'tsd_limits', eps=1000)], require={'set': 5000, 'destroyed': 3000, 'cleared': 1000, 'rounds_exhausted': 20, 'gen_destroyed': 1000, 'live_deletes': 500, 'limit_reached': 10}),
 'P14': dict(works=[W(TI, 'timed_deadline', eps=1500, weight=3), W(TI, 'timed_delay', eps=2000)], require={'timed_out': 5000, 'granted': 5000, 'far_deadlines_granted': 2000, 'delays': 1000, 'abstimes': 2000}),
 'P15': dict(works=[W(ST, 'static_use', eps=2000), W(ST, 'static_destroy', eps=2000)], require={'static_uses': 5000, 'destroyed_first': 1000, 'destroy_busy': 200}),
 'P16': dict(works=[W(IM, 'implicit_life', eps=1200, weight=2), W(IM, 'process_cycle', eps=300)], require={'used_before_attach': 50, 'implicit_ids': 1000, 'implicit_ended': 1000, 'implicit_cancelled': 100, 'implicit_destroyed': 100, 'implicit_died_owner': 50, 'process_cycles': 100}),
 'P20': dict(works=[W(AT, 'attr_threads', eps=1000), W(AT, 'attr_objects', eps=1500)], require={'attr_creates': 1000, 'attr_ops': 5000, 'attr_mutexes': 500}),
 'P21': dict(works=[W(SD, 'sched_threads', eps=1000), W(SD, 'sched_sets', eps=1500), W(SD, 'sched_implicit', eps=1500), W(AT, 'attr_threads', eps=1000)], require={'attr_creates': 500, 'system_refused': 500, 'system_affinity': 500, 'prio_set': 1000, 'prio_get': 1000, 'aff_set': 1000, 'aff_get': 1000, 'set_ops': 5000, 'process_ops': 500}),
 'P22': dict(works=[W(NM, 'names', eps=1500, weight=2), W(AT, 'attr_threads', eps=1000)], require={'attr_creates': 500, 'names_set': 1000, 'names_got': 1000}),
}
CHECKS['P24'] = dict(works=[W('w_args.c', 'args_objects', eps=1000), W('w_args.c', 'args_threads', eps=800)], require={'args_refused': 5000, 'args_stale': 5000, 'args_recycled': 200, 'args_system_thread': 200})
CHECKS['P18'] = dict(works=[W('w_fault.c', 'fault_enum', eps=200, weight=2), W('w_fault.c', 'fault_attach', eps=200), W('w_fault.c', 'fault_contended', eps=800, weight=2)], require={'fault_refused': 5000, 'attach_refused': 500, 'starved_events': 2000})
ALL = {}
for p in CHECKS.values():
    for w in p['works']: ALL[w['name']] = w
for _p in ('P03', 'P10', 'P11', 'P12', 'P13', 'P16', 'P18', 'P22', 'P24'): CHECKS[_p]['modes'] = ['c', 'cxx', 'dll']   # also as a DLL: the system calls DllMain as threads start and end
LEAKOUT = ['process_cycle', 'fault_attach', 'fault_enum', 'cleanup_uncaught']   # audits everything by itself at process detach
CHECKS['P17'] = dict(modes=['c', 'cxx', 'dll'], works=[W(w['file'], w['name'], eps=min(400, w.get('eps', 400)), args=[] if w['name'] in LEAKOUT else ['--leak'], others=['implicit-cleanup']) for w in ALL.values() if w['name'] != 'thread_ids_long'], quick_s=40, require={'process_cycles': 50, 'timed_out': 500, 'cancelled_in_wait': 100, 'implicit_ended': 100})
CHECKS['P19'] = dict(modes=['asan', 'cxx'], works=[W(w['file'], w['name'], eps=min(200, w.get('eps', 200)), others=['implicit-cleanup']) for w in ALL.values()], quick_s=45)
