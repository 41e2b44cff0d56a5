// Virtual time: the clock functions of libc are replaced, so every clock the code under test may
// choose (steady, system, time()) reads the scripted time.
#pragma once
#include <bits/stdc++.h>
#include <sys/time.h>
#include <time.h>

#ifndef VCLOCK_LOCAL
#define VCLOCK_LOCAL
#endif

namespace vclock {
inline VCLOCK_LOCAL long long mono = 1'000'000'000LL;                       // ns
inline VCLOCK_LOCAL long long wall_offset = 1'700'000'000LL * 1'000'000'000LL;    // wall = mono + offset
inline VCLOCK_LOCAL std::function<void()> on_read;                          // called at each reading
inline long long wall() { return mono + wall_offset; }
}    // namespace vclock

extern "C" {
__attribute__((used)) inline int vclock_fill(clockid_t id, struct timespec* ts)
{
    bool m = id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME;
    long long t = m ? vclock::mono : vclock::wall();
    ts->tv_sec = t / 1'000'000'000LL;
    ts->tv_nsec = t % 1'000'000'000LL;
    return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    if (vclock::on_read) vclock::on_read();
    return vclock_fill(id, ts);
}
time_t time(time_t* p) noexcept
{
    time_t t = vclock::wall() / 1'000'000'000LL;
    if (p) *p = t;
    return t;
}
int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept
{
    long long t = vclock::wall();
    tv->tv_sec = t / 1'000'000'000LL;
    tv->tv_usec = t % 1'000'000'000LL / 1000;
    return 0;
}
}
