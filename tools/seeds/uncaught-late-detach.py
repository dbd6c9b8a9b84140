prop = 'P12'
needs = 'A thread of the C++ build ends by an exception nobody catches, and the application has a terminate handler that ends the thread.'
breaks = 'The terminate handler is called before the thread has been cleaned up: the destructors of its keys never run.'
edits = [('ptw32_threadStart.c', '(void) pthread_win32_thread_detach_np (); terminate ();', 'terminate ();\n    (void) pthread_win32_thread_detach_np ();', 0)]
secs = 30
modes = 'cxx'
demo = r'''
#include "wk.h"
#ifdef __cplusplus
#include <exception>
static volatile int dt; static pthread_key_t k; static void un(void) { ExitThread(7); } static void kd(void *v) { CK(v == (void *)&dt, "dtor", "value"); dt++; }
static void *th(void *v) { OK(pthread_setspecific(k, v), "set"); throw 5; return v; }
WORKLOAD(demo) { pthread_t t; dt = 0; std::terminate_handler o = std::set_terminate(un); OK(pthread_key_create(&k, kd), "create"); wk_spawn(&t, th, (void *)&dt); OK(pthread_join(t, NULL), "join"); sim_quiesce(); std::set_terminate(o); CK(dt == 1, "destructor", "ran %d times", dt); OK(pthread_key_delete(k), "delete"); }
#else
WORKLOAD(demo) { sim_state(1); }
#endif
'''
