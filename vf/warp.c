#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdlib.h>
#include <time.h>
/* Preloaded into a process under test: during the next timed wait the system clock is set forward by WARP seconds. */
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t)
{
	static int (*real)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
	const char *w = getenv("WARP");
	struct timespec u = *t;
	if (!real)
		real = dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
	if (w) {
		u.tv_sec -= atoi(w);
		unsetenv("WARP");
	}
	return real(c, m, &u);
}
