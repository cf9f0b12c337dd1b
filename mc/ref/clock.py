"""The time of day, stopped for the code under test (files keep their true time stamps)."""
import ctypes
import os
import subprocess

SOURCE = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
static double stopped = 0;
void clock_stop(double s) { stopped = s; }
typedef int (*fn)(clockid_t, struct timespec *);
int clock_gettime(clockid_t id, struct timespec *t) {
    static fn real;
    if (!real) real = (fn)dlsym(RTLD_NEXT, "clock_gettime");
    int r = real(id, t);
    if (!r && stopped && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long long ns = (long long)(stopped * 1e9);
        t->tv_sec = ns / 1000000000LL; t->tv_nsec = ns % 1000000000LL;
    }
    return r;
}
int gettimeofday(struct timeval *t, void *z) {
    struct timespec s; int r = clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return r;
}
time_t time(time_t *out) {
    struct timespec s; clock_gettime(CLOCK_REALTIME, &s);
    if (out) *out = s.tv_sec;
    return s.tv_sec;
}
'''


def library(folder):
    src, lib = os.path.join(folder, 'clock.c'), os.path.join(folder, 'clock.so')
    with open(src, 'w') as f:
        f.write(SOURCE)
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', lib, src, '-ldl'], check=True, stdin=subprocess.DEVNULL)
    return lib


def preloaded():
    return os.environ.get('MC_CLOCK')


class Stopped:
    """The clock shows t until the end of the block."""

    def __init__(self, t):
        self.t = t

    def __enter__(self):
        ctypes.CDLL(preloaded()).clock_stop(ctypes.c_double(self.t))

    def __exit__(self, *args):
        ctypes.CDLL(preloaded()).clock_stop(ctypes.c_double(0.))
