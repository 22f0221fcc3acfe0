// Interposes the wall clock of this process: every source of calendar time is
// shifted by fake_offset_s seconds, whatever API the code under test reads it with.
#ifndef FAKETIME_H
#define FAKETIME_H
#include <ctime>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
extern "C" {
long fake_offset_s = 0;
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
    int r = (int)syscall(SYS_clock_gettime, id, ts);
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) ts->tv_sec += fake_offset_s;
    return r;
}
time_t time(time_t *t) noexcept { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); time_t v = ts.tv_sec + fake_offset_s; if (t) *t = v; return v; }
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec + fake_offset_s; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
}
#endif
