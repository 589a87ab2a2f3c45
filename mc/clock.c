/* clocks of the process can be moved forward: mc_clock_shift seconds. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <sys/time.h>
#include <time.h>

long mc_clock_shift = 0;

int clock_gettime(clockid_t c, struct timespec *ts)
{
	static int (*real)(clockid_t, struct timespec *);
	if (!real)
		real = dlsym(RTLD_NEXT, "clock_gettime");
	int r = real(c, ts);
	if (r == 0 && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID)
		ts->tv_sec += mc_clock_shift;
	return r;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts;
	(void)tz;
	int r = clock_gettime(CLOCK_REALTIME, &ts);
	if (r == 0 && tv) {
		tv->tv_sec = ts.tv_sec;
		tv->tv_usec = ts.tv_nsec / 1000;
	}
	return r;
}

time_t time(time_t *t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
