prop = 'P11'
needs = 'An asynchronously cancelable thread must disable cancellation (or go back to deferred) between the moment the canceller has looked at its state and the moment it suspends it.'
breaks = 'pthread_cancel releases the state lock of the target before it suspends it, so the target can meanwhile disable cancellation successfully and is cancelled inside the protected region.'
edits = [('pthread_cancel.c', 'HANDLE threadH = tp->threadH;', 'HANDLE threadH = tp->threadH; ptw32_mcs_lock_release (&stateLock);'), ('pthread_cancel.c', 'ptw32_mcs_lock_release (&stateLock); ResumeThread', 'ResumeThread')]
secs = 60
demo = r'''
#include "wk.h"
static volatile int prot, ready, reached; 
static void *th(void *v) { int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &o); pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o); ready = 1; wk_work(R(10));
  OK(pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o), "disable"); prot = 1; wk_work(20); prot = 2; OK(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o), "enable"); for (int i = 0; i < 50; i++) { pthread_testcancel(); sim_delay_us(1000); } return v; }
WORKLOAD(demo) {
  pthread_t t; prot = ready = 0; wk_spawn(&t, th, NULL);
  while (!ready) sim_delay_us(10);
  wk_work(R(12)); OK(pthread_cancel(t), "cancel"); CK(wk_join(t) == PTHREAD_CANCELED, "canceled", "not cancelled"); CK(prot != 1, "protected", "cancelled inside a region where cancellation was disabled");
}
'''
