/* Every host header the library, the workloads or the shim can pull in. */
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#ifdef __cplusplus
#include <new>
#include <exception>
#include <typeinfo>
#include <cstdlib>
#include <stdexcept>
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <strings.h>
#include <errno.h>
#include <limits.h>
#include <time.h>
#include <sys/types.h>
#include <sys/time.h>
#include <sys/timeb.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <malloc.h>
#include <assert.h>
#include <math.h>
#include <float.h>
#include <ctype.h>
#include <inttypes.h>
#ifndef __cplusplus
#include <stdbool.h>
#include <stdalign.h>
#include <stdnoreturn.h>
#endif
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>
