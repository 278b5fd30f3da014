/* A clock that jumps past every limit at a chosen query.  Only queries made by
   the extension module are counted and shifted; nothing happens until armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

static long left = -1;          /* queries until the jump; negative: not armed */
static long count;
static long jump;
static int armed;

void vclock_arm(long queries, long seconds) { left = queries; jump = seconds; count = 0; armed = 1; }
long vclock_disarm(void) { armed = 0; return count; }

static int ours(void *caller) {
	Dl_info i;
	return armed && dladdr(caller, &i) && i.dli_fname && strstr(i.dli_fname, "cstreed");
}

static long shift(void *caller) {
	if (!ours(caller)) return 0;
	count++;
	if (left > 0) { left--; return 0; }
	return left == 0 ? jump : 0;
}

time_t time(time_t *t) {
	struct timespec ts;
	static int (*real)(clockid_t, struct timespec *);
	if (!real) real = (int (*)(clockid_t, struct timespec *)) dlsym(RTLD_NEXT, "clock_gettime");
	real(CLOCK_REALTIME, &ts);
	ts.tv_sec += shift(__builtin_return_address(0));
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}

int clock_gettime(clockid_t c, struct timespec *ts) {
	static int (*real)(clockid_t, struct timespec *);
	if (!real) real = (int (*)(clockid_t, struct timespec *)) dlsym(RTLD_NEXT, "clock_gettime");
	int r = real(c, ts);
	if (armed && c != CLOCK_PROCESS_CPUTIME_ID && c != CLOCK_THREAD_CPUTIME_ID) ts->tv_sec += shift(__builtin_return_address(0));
	return r;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
	static int (*real)(struct timeval *, void *);
	if (!real) real = (int (*)(struct timeval *, void *)) dlsym(RTLD_NEXT, "gettimeofday");
	int r = real(tv, tz);
	if (armed) tv->tv_sec += shift(__builtin_return_address(0));
	return r;
}

/* std::chrono, in case the limit is kept with it */
static long long chrono_now(clockid_t c, void *caller) {
	static int (*real)(clockid_t, struct timespec *);
	struct timespec ts;
	if (!real) real = (int (*)(clockid_t, struct timespec *)) dlsym(RTLD_NEXT, "clock_gettime");
	real(c, &ts);
	return (ts.tv_sec + shift(caller)) * 1000000000LL + ts.tv_nsec;
}
long long _ZNSt6chrono3_V212steady_clock3nowEv(void) { return chrono_now(CLOCK_MONOTONIC, __builtin_return_address(0)); }
long long _ZNSt6chrono3_V212system_clock3nowEv(void) { return chrono_now(CLOCK_REALTIME, __builtin_return_address(0)); }
