SIMNOTE = 'Dynamic exploration: guarantees hold for the executions observed (seeded random, PCT-style and targeted schedules of the real library code over a Win32 simulator, both the C and the C++-exception build). Trusts the simulator\'s model of the Win32 calls and assumes sequentially consistent memory.'
TECH = 'runtime monitoring: schedule-fuzzed execution of the real code with online oracles, heap/handle shadow checking'
prop('P01', 'Mutexes give mutual exclusion and never lose a waiter',
 'At most one thread is inside a critical section of a mutex, whatever its type (normal, recursive, error-checking, robust) and whether it was taken with lock, trylock or timedlock. A thread blocked in lock always gets the mutex once it is released, also when other waiters time out. The last user may unlock and immediately destroy the mutex without the unlocking of earlier users touching it any more.',
 [S, H], 'all interleavings of any number of threads locking, try-locking, timed-locking and unlocking', 'tests sample one timing; exclusion and lost wakeups depend on the interleaving of individual atomic operations inside lock, timed lock and unlock',
 ['pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_unlock.c', 'pthread_mutex_destroy.c'], ['lock word exchanged atomically, -1 meaning possible waiters', 'auto-reset event signalled by the releasing thread', 'timed waiter gives up'],
 state=['struct pthread_mutex_t_.lock_idx'], observe=['return of the lock calls', 'event waits'], tech=TECH + ' (exclusion shadow, conservation counters, hang detector)', note=SIMNOTE)
prop('P02', 'Mutex operations follow the POSIX sequential rules of each mutex type',
 'For every history of operations, recursive mutexes need as many unlocks as locks, error-checking mutexes report relocking as a deadlock, unlocking a mutex that is not held (or, for owner-tracking types, not held by the caller) is refused without effect, trylock of a held mutex is busy, and a free mutex is taken at once even with an expired deadline. A held mutex can not be destroyed; destroying a free one works; a destroyed mutex is refused. Timed locks on a held mutex fail with a timeout only after their deadline.',
 [H, I], 'all sequences of operations by several threads on mutexes of all types, including nested and misuse cases with a defined result', 'the result of each call depends on the whole history of owners, nesting and timeouts; tests check a few fixed sequences',
 ['pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_unlock.c', 'pthread_mutex_init.c', 'pthread_mutex_destroy.c', 'pthread_mutexattr_settype.c'], ['owner and recursion count', 'kind dispatch'],
 observe=['return values', 'whether the call blocks'], tech=TECH + ' (lock-step comparison with a sequential reference model)', note=SIMNOTE)
prop('P03', 'Robust mutexes hand over the state of a dead owner exactly once',
 'When a thread terminates (by return, exit or cancellation) holding a robust mutex, exactly one subsequent locker obtains it with the owner-dead result and all others keep waiting; marking it consistent restores normal operation. Unlocking it without marking it consistent makes it permanently not recoverable: every present and future locker gets that result and nobody enters. Without a dead owner neither result ever appears.',
 [S, H], 'all interleavings of lockers, dying owners, recoveries and abandonments', 'the hand-over races the exit path of the owner against waiters, try-lockers and timed lockers; tests run one order',
 ['pthread_mutex_lock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_unlock.c', 'pthread_mutex_consistent.c', 'ptw32_threadDestroy.c'], ['per-thread list of held robust mutexes', 'state word changed by compare and exchange', 'wake-all chain when not recoverable'],
 tech=TECH + ' (state-machine monitor per mutex)', note=SIMNOTE)
prop('P04', 'Spin locks give mutual exclusion and progress, also on one processor',
 'At most one thread holds a spin lock, a spinning thread gets the lock once it is released, trylock never blocks and is busy exactly when the lock is held, unlocking a lock that is not held has no effect, and a held lock can not be destroyed. This also holds for statically initialised locks used first by several threads at once, and on a single-processor system where the lock falls back to a mutex.',
 [S, H, C], 'all interleavings of lock, trylock, unlock and first use, with one or several processors', 'exclusion depends on atomic-operation interleavings, and the single-processor representation is never used on the test machine',
 ['pthread_spin_init.c', 'pthread_spin_lock.c', 'pthread_spin_trylock.c', 'pthread_spin_unlock.c', 'pthread_spin_destroy.c', 'ptw32_spinlock_check_need_init.c'], ['interlocked state word', 'mutex used when there is one processor'], tech=TECH + ' (exclusion shadow and sequential model)', note=SIMNOTE)
prop('P05', 'Read-write locks: readers share, writers exclude, nobody is forgotten',
 'A writer never holds the lock together with any other holder; readers may share it. Whenever the lock is free some waiting thread is let in, readers are not kept out when no writer holds or waits, and threads that time out or are cancelled while waiting leave the lock as if they had never asked. A held lock can not be destroyed, try operations never block, and timed operations fail only after their deadline.',
 [S, H], 'all interleavings of readers, writers, try, timed and cancelled requests', 'the implementation counts completed readers lazily over two mutexes and a condition variable; errors need a timeout or cancellation in a narrow window',
 ['pthread_rwlock_rdlock.c', 'pthread_rwlock_wrlock.c', 'pthread_rwlock_timedrdlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_rwlock_tryrdlock.c', 'pthread_rwlock_trywrlock.c', 'pthread_rwlock_unlock.c', 'pthread_rwlock_destroy.c', 'ptw32_rwlock_cancelwrwait.c'], ['shared-access counters', 'writer waits for completed count to reach the shared count', 'clean-up of a cancelled or timed-out writer'],
 tech=TECH + ' (holder shadow and sequential model)', note=SIMNOTE)
prop('P06', 'Condition variables: no lost, no swallowed wakeups; mutex held on return',
 'A signal sent while threads wait releases at least one of them and a broadcast releases all; a signal with no waiter has no effect. A waiter that is cancelled does not consume a signal that another waiter could have used, and every way out of a wait (wakeup, timeout, cancellation) leaves the caller holding the mutex. Once nobody is blocked (for instance straight after a broadcast) the condition variable can be destroyed, while one with waiters is reported busy.',
 [S, H], 'all interleavings of waits, timed waits, signals, broadcasts, cancellations, system time changes and destruction', 'wakeups get lost only when a timeout or cancellation meets a signal in a window of a few instructions',
 ['pthread_cond_wait.c', 'pthread_cond_signal.c', 'pthread_cond_destroy.c', 'pthread_cond_init.c', 'pthread_timechange_handler_np.c', 'ptw32_cond_check_need_init.c'], ['waiters blocked / gone / to-unblock counters', 'gate semaphore closed while a signal is delivered', 'cleanup handler of the wait'],
 tech=TECH + ' (predicate-blocked monitor, mutex-ownership shadow, sequential model)', note=SIMNOTE)
prop('P07', 'Semaphores conserve their count',
 'The number of completed waits never exceeds the initial value plus the posts, and when all is quiet the value equals the initial value plus posts minus completed waits; nobody stays blocked while the value is positive. Waits that fail, time out or are cancelled consume nothing. A post beyond the maximum is refused without effect, trywait never blocks, a semaphore with waiters can not be destroyed.',
 [S, H, I], 'all interleavings of post, multi-post, wait, trywait, timedwait and cancellation', 'a unit is lost or duplicated only if a timeout or cancellation meets a post at a particular point',
 ['sem_wait.c', 'sem_timedwait.c', 'sem_trywait.c', 'sem_post.c', 'sem_post_multiple.c', 'sem_getvalue.c', 'sem_init.c', 'sem_destroy.c'], ['count decremented before blocking, negative meaning waiters', 'system semaphore released only for waiters', 'cleanup handlers for timeout and cancellation'],
 tech=TECH + ' (conservation counters and sequential model)', note=SIMNOTE)

prop('P08', 'Barriers release whole generations, with exactly one serial thread each',
 'No thread leaves a barrier wait before the configured number of threads has entered that generation, all of them then leave, and exactly one of them is told it is the serial thread. The barrier can be reused at once for any number of generations, no thread being held back or carried over into another generation, and the serial thread or any thread that left may destroy it when it is no longer needed, while a barrier with waiters is reported busy or destroyed only after they have left.',
 [S, H], 'all interleavings of any number of threads over any number of generations and barrier heights, also with more threads than the height', 'fast threads re-enter while slow ones are still leaving; the overlap is decided by a few instructions around the last counter decrement',
 ['pthread_barrier_wait.c', 'pthread_barrier_init.c', 'pthread_barrier_destroy.c', 'ptw32_MCS_lock.c'], ['remaining count under a queue lock handed to the last thread out', 'semaphore released by height minus one'], tech=TECH + ' (generation monitor)', note=SIMNOTE)
prop('P09', 'pthread_once runs the routine exactly once to completion before anyone returns',
 'For one once-control the routine runs to completion exactly once; no caller returns before it has completed. If the running thread is cancelled (or exits) inside the routine, the control is reset and exactly one of the other callers runs it instead. Callers of different controls do not hinder each other.',
 [S, H], 'all interleavings of callers, and cancellations of the running caller at any point', 'late callers race the completion or cancellation of the running one', ['pthread_once.c', 'ptw32_MCS_lock.c'], ['done flag tested without the lock', 'queue lock held while the routine runs', 'cleanup handler releases the lock on cancellation'], tech=TECH + ' (exactly-once monitor)', note=SIMNOTE)

prop('P10', 'Every created thread runs once; join or detach ends it exactly once',
 'A successful create runs the routine exactly once with its argument. Join, timed join and try join return only after the thread has finished everything it does (body, cleanup handlers, key destructors) and deliver its return, exit or cancellation value exactly once; a timed join fails only after its deadline, a try join is busy exactly while the thread lives, and a join that times out or whose caller is cancelled leaves the thread joinable. A detached thread (made so at creation or later) is refused by every kind of join and by detach. A thread ended by pthread_kill with a terminating signal is joined with the value PTHREAD_CANCELED. Detaching before, during or after the end of the thread loses nothing and frees it once. Joining oneself is reported as a deadlock, and the id of a finished thread is refused everywhere.',
 [S, H], 'all interleavings of creation, exit, join of every kind, detach (by itself or by others) and nested creation', 'exit of the thread races join and detach over a few unsynchronised steps (state flags, handle closing, struct recycling)',
 ['create.c', 'pthread_join.c', 'pthread_timedjoin_np.c', 'pthread_tryjoin_np.c', 'pthread_detach.c', 'pthread_exit.c', 'ptw32_threadStart.c', 'ptw32_threadDestroy.c', 'ptw32_new.c', 'ptw32_reuse.c', 'pthread_kill.c'], ['thread struct recycled with a bumped reuse count', 'detach state checked under the reuse and state locks', 'thread handle waited for by joiners'],
 state=['struct ptw32_thread_t_'], observe=['values returned by join', 'run counts', 'results on stale ids'], tech=TECH + ' (life-cycle monitor per thread)', note=SIMNOTE)
prop('P11', 'Cancellation acts exactly once, only where and when it is enabled',
 'A request is acted on exactly once, at the first cancellation point reached with cancellation enabled (at once, anywhere, for asynchronous type), and then join gives the cancelled value. It is never acted on while disabled, nor by functions that are not cancellation points, nor again during cleanup handlers and key destructors; a request is never lost, whenever it is sent: before the thread starts, while disabled, while blocking, or while the type or state is being changed. A thread blocked in a cancellation point wakes up. A cancelled wait leaves its object as if it had not been called. Cancelling a finished thread is refused, and cancelling never affects another thread.',
 [S, H], 'all interleavings of requests with state and type changes, blocking and non-blocking operations, and termination of the target', 'the request is a cross-thread state change observed by an event and a state word at many places; losing it or taking it twice needs a particular step to be interrupted',
 ['pthread_cancel.c', 'pthread_testcancel.c', 'pthread_setcancelstate.c', 'pthread_setcanceltype.c', 'w32_CancelableWait.c', 'ptw32_throw.c', 'pthread_delay_np.c', 'ptw32_threadStart.c'], ['cancel event and state word under the state lock', 'suspend, set context and resume for asynchronous cancellation', 'longjmp or C++ exception to the thread start'],
 tech=TECH + ' (request/acceptance monitor per thread, model of enabled state)', note=SIMNOTE)
prop('P12', 'Cleanup handlers run exactly once, innermost first',
 'When a thread leaves by exit, cancellation (deferred or asynchronous) or, at a pop with a non-zero argument, in the normal flow, every handler pushed and not yet popped runs exactly once in the reverse order of pushing, with its own argument, before any key destructor and before join returns; popped handlers never run. This holds for any nesting over function calls, when handlers themselves push handlers, block, exit or are cancelled; in C++ programs an exception of the application\'s own runs exactly the handlers of the blocks it leaves.',
 [S, H], 'all push/pop nestings, exit routes and cancellation moments', 'which handlers are on the stack at the moment of cancellation depends on timing; handlers that block or exit themselves re-enter the unwinding code', ['cleanup.c', 'pthread.h', 'ptw32_throw.c', 'ptw32_threadStart.c', 'pthread_exit.c'], ['per-thread list of handlers (C), destructor objects (C++)', 'unwinding by longjmp or exception'],
 tech=TECH + ' (expected handler sequence built while executing random push/pop trees)', note=SIMNOTE)
prop('P23', 'Thread identity is unique and stable',
 'pthread_self always gives the same id in a thread, equal to the one the creator got and different from that of every other live thread and of every finished one, also after the internal struct has been recycled. The unique number of a thread never changes and is never given to two threads of the process.',
 [S, H], 'all interleavings of creations, self look-ups and terminations', 'uniqueness depends on races between simultaneous creations and recycling of thread structs', ['pthread_self.c', 'pthread_equal.c', 'pthread_getunique_np.c', 'ptw32_new.c', 'ptw32_reuse.c', 'create.c'], ['struct pointer plus reuse counter', 'sequence number'],
 tech=TECH + ' (uniqueness ledger)', note=SIMNOTE)

prop('P13', 'Thread-specific data is private and its destructors run exactly once',
 'A key reads, in every thread, exactly the value that thread last set for it: no value for a new key (also one that reuses the slot of a deleted key) and for a new thread, and never another thread\'s or another key\'s value; reading disturbs neither errno nor the last system error. When a thread ends by any route, each non-empty value of a live key with a destructor is passed to that destructor exactly once, in that thread, with the value already cleared, after the cleanup handlers and before join returns; values set by destructors get further rounds up to the documented limit and no more. No destructor runs for a key deleted before the thread began to end. Too many keys are refused with EAGAIN and nothing is lost.',
 [S, H, I], 'all histories of key creation, deletion, setting, reading and thread ends in any number of threads, including destructors that set, delete, create and block', 'the key/thread association lists are changed by exiting threads, key deletion and first use at the same time; the tests use one key at a time with little overlap',
 ['pthread_key_create.c', 'pthread_key_delete.c', 'pthread_setspecific.c', 'pthread_getspecific.c', 'ptw32_tkAssocCreate.c', 'ptw32_tkAssocDestroy.c', 'ptw32_callUserDestroyRoutines.c', 'ptw32_threadStart.c'], ['two-dimensional list of key/thread associations, key lock before thread lock', 'rounds of destructor calls counted per thread'],
 state=['struct ThreadKeyAssoc', 'struct pthread_key_t_'], observe=['values read', 'destructor calls'], tech=TECH + ' (token ledger: every value is a unique token followed to its destruction)', note=SIMNOTE)

prop('P14', 'Timed operations honour their deadlines',
 'Every timed operation (mutex, condition, semaphore and both read-write timed locks, timed join) succeeds if its object becomes available before the deadline and otherwise times out: never before the absolute deadline, at any clock value (also after 2038), promptly after it, and at once when it is already past. Deadlines further away than the system can wait in one call (49.7 days) do not time out before that, however far they are. pthread_delay_np never returns early and refuses intervals it cannot represent; pthread_win32_getabstime_np gives the current time plus the interval, normalised.',
 [I, S], 'all deadlines relative to the current time (past, now, below a millisecond, days, centuries, unrepresentable), all clock eras, and all times at which the object becomes available', 'tests use a second or two at the present date; rounding, overflow and era errors need other values, and checking them needs a virtual clock',
 ['ptw32_relmillisecs.c', 'ptw32_timespec.c', 'pthread_mutex_timedlock.c', 'pthread_cond_wait.c', 'sem_timedwait.c', 'pthread_rwlock_timedrdlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_timedjoin_np.c', 'pthread_delay_np.c'], ['absolute time converted to relative milliseconds', 'wait on a kernel object'],
 observe=['results and virtual time of return'], tech=TECH + ' (deadline oracle on a virtual clock)', note=SIMNOTE)
prop('P15', 'Statically initialised objects are created exactly once on first use',
 'A mutex (of each static kind), condition variable, read-write lock or spin lock given its static initialiser behaves from the first use on like one initialised explicitly, even when several threads use it first at the same time: there is a single object with the right kind, and no use gets lost. Destroying one that nobody has used yet, while others are about to use it, either destroys it, and then every such use is refused, or reports it busy, and then they all work.',
 [S, H], 'all interleavings of first uses by any entry point, and of first uses with destruction of an unused object', 'the window is a few instructions around the global initialisation lock, open once per object',
 ['ptw32_mutex_check_need_init.c', 'ptw32_cond_check_need_init.c', 'ptw32_rwlock_check_need_init.c', 'ptw32_spinlock_check_need_init.c', 'pthread_mutex_destroy.c', 'pthread_cond_destroy.c', 'pthread_rwlock_destroy.c', 'pthread_spin_destroy.c'], ['global initialisation locks with a second look at the object'],
 tech=TECH + ' (exclusion shadow from the first use on, outcome rules for first use against destruction)', note=SIMNOTE)

prop('P16', 'Threads not created by the library take part fully; the process can detach and attach again',
 'A thread created by the system itself gets a valid, unique, stable identity at its first library call. It can lock, wait, be joined, detached, cancelled, hold robust mutexes, use keys and push cleanup handlers like any other, and when it exits, is cancelled or detaches, its handlers and key destructors run and its robust mutexes are handed over exactly once and nothing is left behind. Detaching the process releases everything the library holds, and attaching again gives a working library.',
 [S, H], 'all interleavings of first calls, mutual operations and terminations of such threads with created ones, and sequences of process attach and detach', 'the identity is made lazily inside whatever call comes first and is torn down by a different path than that of created threads',
 ['pthread_self.c', 'ptw32_throw.c', 'pthread_win32_attach_detach_np.c', 'pthread_exit.c', 'ptw32_processInitialize.c', 'ptw32_processTerminate.c', 'ptw32_threadDestroy.c'], ['implicit thread struct made by pthread_self and kept in TLS', 'thread detach on exit of the system thread', 'global lists and TLS keys set up and torn down per process'],
 observe=['ids and results', 'destructor and handler calls', 'live blocks, handles and TLS slots after process detach'], tech=TECH + ' (life-cycle ledger, resource audit after process detach)', note=SIMNOTE + ' Known finding: in the C++ build cleanup handlers of implicit threads do not run on exit or cancellation.')
prop('P17', 'Nothing is leaked: all memory and system objects are given back',
 'Once threads have been joined (or, detached, have ended) and objects have been destroyed, every heap block, event, semaphore, thread handle and TLS slot the library took for them has been given back; only a pool of thread structs, never more than the number of threads that were alive, stays for reuse. This holds whatever happened to the threads and objects: timeouts, cancellations, dead owners, failed operations, lost races of first use, detached or implicit threads.',
 [S, H], 'all histories of operations on all kinds of objects, repeated any number of times', 'a leak has no visible effect in a short test; it needs a count of live resources after a history in which a particular race or error path was taken',
 ['ptw32_threadDestroy.c', 'ptw32_reuse.c', 'ptw32_new.c', 'pthread_detach.c', 'pthread_join.c', 'create.c', 'pthread_key_delete.c', 'ptw32_tkAssocDestroy.c', 'pthread_cond_destroy.c', 'sem_destroy.c', 'pthread_rwlock_destroy.c', 'pthread_mutex_destroy.c', 'ptw32_MCS_lock.c', 'ptw32_semwait.c'], ['thread struct pool', 'handles closed by the last party', 'association lists freed by thread exit or key deletion'],
 observe=['live heap blocks, handles, TLS slots after each episode'], tech=TECH + ' (resource ledger over handles, blocks and TLS slots, compared after every episode)', note=SIMNOTE)
prop('P20', 'Attribute objects are faithful and creation honours them',
 'Each attribute of a thread, mutex, condition, read-write lock or barrier attributes object reads back what was last accepted (initially its default), independently of the others and of other objects; refused values change nothing; destroyed or missing objects are refused. Creating a thread or object takes a snapshot: the thread really gets the detach state, priority (set or inherited), processor set, stack size and name asked for, and the mutex its type, robustness; later changes to or destruction of the attributes object do not affect it.',
 [I, H], 'all sequences of set, get, create and destroy on any number of attributes objects', 'tests set and get one value at a time; interference between attributes and effects at creation depend on combinations',
 ['pthread_attr_init.c', 'pthread_attr_destroy.c', 'pthread_attr_setdetachstate.c', 'pthread_attr_setschedparam.c', 'pthread_attr_setinheritsched.c', 'pthread_attr_setstacksize.c', 'pthread_attr_setaffinity_np.c', 'pthread_attr_setname_np.c', 'create.c', 'pthread_mutexattr_settype.c', 'pthread_mutexattr_setrobust.c', 'pthread_condattr_setpshared.c', 'pthread_rwlockattr_setpshared.c', 'pthread_barrierattr_setpshared.c'], ['heap-allocated attributes struct checked by a validity mark', 'values read by pthread_create'],
 observe=['values read back', 'priority, affinity and stack size given to the system'], tech=TECH + ' (register model per attribute, values compared with those the simulated system received)', note=SIMNOTE)
prop('P21', 'Priority, affinity and CPU sets behave as a sequential model says',
 'A thread\'s priority reads back as last set (by itself, by others or at its creation), is given to the system clamped to its levels, and refused outside the limits; the affinity of a thread is the intersection of what was asked with the CPUs of the process, refused when empty or for bad arguments or ended threads, and really given to the system. A thread of the system keeps its level and affinity when it becomes a POSIX thread, and they read back; affinity changed by a system call is reported; a change the system refuses is reported and changes nothing. CPU sets are sets: every operation (set, clear, test, count, equal, and, or, xor) agrees with set algebra for all members a set can hold and ignores others. sched_yield, concurrency level and policy queries give their documented results.',
 [I, H], 'all sequences of operations by and on several threads, all CPU sets and numbers', 'tests use the few CPUs of the test machine and one thread at a time',
 ['pthread_setschedparam.c', 'pthread_getschedparam.c', 'pthread_setaffinity.c', 'sched_setaffinity.c', 'sched_setscheduler.c', 'sched_getscheduler.c', 'sched_get_priority_max.c', 'sched_get_priority_min.c', 'pthread_setconcurrency.c', 'pthread_num_processors_np.c', 'ptw32_getprocessors.c'], ['priority remembered per thread and mapped to system levels', 'bit set of processors'],
 observe=['values read back', 'priority and affinity given to the system'], tech=TECH + ' (sequential model and set-algebra oracle, values compared with those the simulated system received)', note=SIMNOTE)
prop('P22', 'Thread names read back whole and belong to one thread',
 'The name of a live thread, given by attributes or set by anyone at any time, reads back exactly as one that was set, never mixed, truncated (unless the buffer is too small) or that of another or of an earlier thread; a thread without a name reads as empty; setting names at any time, also concurrently with reading and with the end of other threads, touches no freed memory.',
 [S, I], 'all interleavings of setting, reading, creation and termination', 'readers race writers that replace and free the string', ['pthread_setname_np.c', 'pthread_getname_np.c', 'pthread_attr_setname_np.c', 'pthread_attr_getname_np.c', 'create.c', 'ptw32_threadDestroy.c'], ['heap copy of the name replaced under the thread lock'],
 observe=['names read'], tech=TECH + ' (set of admissible names per thread)', note=SIMNOTE)
prop('P24', 'Wrong arguments are refused, with no effect on anyone',
 'An operation on a missing object (null pointer or destroyed object, where the documentation or code has an error for it), with a value out of range, with a facility that is not supported, or on a thread that was joined or never was, fails with its error code (EINVAL, ESRCH, EPERM, EFAULT, ENOSYS; through errno for the sem_ and sched_ functions) whoever calls it and whatever others do at the time: nothing is dereferenced, locked, stored, made or changed, a mutex the caller holds stays held, and above all the id of a thread that is gone never acts on the thread that now lives in its recycled structure. Joining oneself is refused.',
 [I, H], 'all wrong arguments of all operations, by any thread, at any time during the use of other objects, and all ids of earlier threads', 'tests try a handful of wrong arguments, alone, and no id whose structure serves another thread',
 ['pthread_join.c', 'pthread_tryjoin_np.c', 'pthread_timedjoin_np.c', 'pthread_detach.c', 'pthread_cancel.c', 'pthread_kill.c', 'pthread_setschedparam.c', 'pthread_setaffinity.c', 'pthread_setname_np.c', 'pthread_rwlock_rdlock.c', 'pthread_cond_wait.c', 'pthread_mutex_unlock.c', 'sem_timedwait.c', 'pthread_mutexattr_settype.c', 'pthread_delay_np.c'], ['thread id made of a structure and its reuse count', 'argument checks before any locking'],
 observe=['return values and errno', 'state of live objects and threads afterwards', 'memory accesses'], tech=TECH + ' (table of wrong calls with their documented results, drawn at random among concurrent legal use; recycled thread structures)', note=SIMNOTE)

prop('P18', 'Lack of resources is reported, without effect, and passes',
 'When memory, an event, a semaphore, a thread, a TLS slot or a handle can not be had, the operation that needed it either copes or fails with EAGAIN, ENOMEM or ENOSPC (or its documented code): it faults nothing, changes nothing, leaks nothing, leaves locks it holds or takes consistent, and succeeds when tried again with enough resources. That includes first uses of static objects, first calls from system threads, process attach, and threads queueing for internal locks while no event can be created.',
 [F, S, H], 'every single failing allocation in every operation that allocates, and lasting shortage during contended use', 'tests never see an allocation fail',
 ['create.c', 'ptw32_new.c', 'pthread_self.c', 'pthread_mutex_init.c', 'pthread_cond_init.c', 'pthread_rwlock_init.c', 'pthread_spin_init.c', 'pthread_barrier_init.c', 'sem_init.c', 'pthread_key_create.c', 'ptw32_tkAssocCreate.c', 'pthread_setname_np.c', 'ptw32_MCS_lock.c', 'ptw32_processInitialize.c', 'ptw32_mutex_check_need_init.c', 'ptw32_cond_check_need_init.c', 'ptw32_rwlock_check_need_init.c', 'ptw32_spinlock_check_need_init.c'], ['error paths that free what was already got', 'event created on demand for a queued thread'],
 observe=['results', 'live resources before and after', 'second attempt'], tech='runtime monitoring: fault injection into every allocating call of the real code (all positions, single and lasting), with result, effect, leak and retry oracles, and conservation monitors under contention', note=SIMNOTE)
prop('P19', 'No operation touches memory or handles it does not own, or relies on undefined behaviour',
 'In every legal use, from any number of threads, the library reads and writes only live memory within its bounds (heap blocks, the stacks of waiting threads, user objects), never uses freed or uninitialised data, closes every handle once and uses only live handles of the right kind, and executes no undefined operation (overflow, bad shift, misalignment, null access).',
 [S, I, H], 'all histories and interleavings of the operations covered by all the other properties', 'stray accesses mostly have no visible effect in a test run; stack-resident queue nodes and recycled thread structs are freed or reused under races',
 ['ptw32_MCS_lock.c', 'ptw32_semwait.c', 'ptw32_reuse.c', 'ptw32_threadDestroy.c', 'ptw32_tkAssocDestroy.c', 'pthread_key_delete.c', 'pthread_cond_destroy.c', 'sem_destroy.c', 'pthread_barrier_destroy.c', 'pthread_mutex_destroy.c', 'pthread_setname_np.c', 'sched_setaffinity.c', 'ptw32_relmillisecs.c'], ['objects freed by one party while others leave them', 'stack nodes linked into queues'],
 observe=['every load and store of library code', 'every handle passed to the system'], tech='sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer builds, and a build with every memory access instrumented (thread-sanitizer hooks) against heap, stack-lifetime and handle shadows, of the real code under all workloads with schedule fuzzing', note=SIMNOTE)
