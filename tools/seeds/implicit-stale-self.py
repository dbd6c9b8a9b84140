prop = 'P16'
needs = 'A thread not created by the library must detach itself explicitly (pthread_win32_thread_detach_np) and use the library again afterwards.'
breaks = 'The identity is destroyed but stays recorded for the thread, so a later call uses a thread struct that is in the pool or belongs to another thread already.'
edits = [('pthread_win32_attach_detach_np.c', 'if (ptw32_selfThreadKey) { TlsSetValue (ptw32_selfThreadKey->key, NULL); }', ';', 1)]
secs = 15
demo = r'''
#include "wk.h"
static pthread_t a, b; static volatile int ok;
static void *th(void *v) { sim_delay_us(1000); return v; }
static unsigned WINAPI raw(void *v) { pthread_t t; (void)v; a = pthread_self(); pthread_win32_thread_detach_np(); EQ(pthread_kill(a, 0), ESRCH, "stale"); wk_spawn(&t, th, NULL); b = pthread_self(); CK(!pthread_equal(b, t), "distinct", "same id as a created thread"); CK(!pthread_equal(a, b), "new", "the old id came back"); OK(pthread_kill(b, 0), "valid"); wk_join(t); pthread_win32_thread_detach_np(); ok = 1; return 0; }
WORKLOAD(demo) { ok = 0; HANDLE h = CreateThread(NULL, 0, (LPTHREAD_START_ROUTINE)(void *)raw, NULL, 0, NULL); WaitForSingleObject(h, INFINITE); CloseHandle(h); CK(ok, "end", "thread died"); }
'''
