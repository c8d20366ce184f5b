// A deterministic scheduler for whole programs: one thread runs at a time, every mutex, condition
// variable, thread, futex and clock operation and (with -finstrument-functions) every function
// call may hand over to another one, and time passes only when nothing else can happen.
#include "natsched.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <vector>
namespace sched {
enum State { RUN, BLOCKED, DONE };
struct T {
    int id; sem_t sem; State st{ RUN }; const void* on{}; const char* why{ "" }; int64_t deadline{ -1 };
    bool timedout{}; bool detached{}; int prio{}; int inside{}; void* (*fn)(void*){}; void* arg{}; void* ret{}; pthread_t real{};
};
static bool active = false;
static std::vector<T*> threads;
static thread_local T* self = nullptr;
static int64_t clock_ns = 0;
static uint64_t rng = 1;
static unsigned pol = 0; static long steps = 0; static long budget = 0; static unsigned fine = 0; static std::vector<long> changes;
static long spins = 0, forced = 0;                // calls since the last hand-over; hand-overs of a thread that spins
static void (*on_stuck)(const char*) = nullptr;
static std::map<const void*, T*> owner;           // mutexes held
static std::map<const void*, int> depth;
struct RW { int readers = 0; T* writer = nullptr; };
static std::map<const void*, RW> rws;
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
int64_t now_ms() { return clock_ns / 1000000; }
int me() { return self ? self->id : -1; }
bool on() { return active && self; }
void quiet(bool b) { if (self) self->inside += b ? 1 : -1; }
bool waiting(int id) { for (auto t : threads) if (t->id == id) return t->st == BLOCKED; return false; }

[[noreturn]] static void stuck(const char* what) {
    std::string s = what;
    for (auto t : threads) if (t->st == BLOCKED) s += "; thread " + std::to_string(t->id) + " waits for " + t->why;
    if (on_stuck) on_stuck(s.c_str());
    _exit(9);
}
static void go(T* n) {
    if (n == self) return;
    T* me = self;
    sem_post(&n->sem);
    if (me->st != DONE) while (sem_wait(&me->sem)) {}
}
static T* choose(bool stay) {
    for (;;) {
        std::vector<T*> r;
        for (auto t : threads) if (t->st == RUN) r.push_back(t);
        if (!r.empty()) {
            if (pol == 1) { T* b = r[0]; for (auto t : r) if (t->prio > b->prio) b = t; return b; }
            if (stay && self->st == RUN && rnd() % 2) return self;
            return r[rnd() % r.size()];
        }
        int64_t d = -1;
        for (auto t : threads) if (t->st == BLOCKED && t->deadline >= 0 && (d < 0 || t->deadline < d)) d = t->deadline;
        if (d < 0) stuck("deadlock");
        if (d > clock_ns) clock_ns = d;
        for (auto t : threads) if (t->st == BLOCKED && t->deadline >= 0 && t->deadline <= clock_ns) { t->st = RUN; t->timedout = true; }
    }
}
void yield() {
    if (!on() || self->inside) return;
    spins = 0;
    if (++steps > budget) stuck("no end in sight");
    if (pol == 1) for (auto c : changes) if (c == steps) { self->prio = -(int)steps; }
    self->inside++; T* n = choose(true); go(n); self->inside--;
}
// a thread that goes round and round without waiting for anything: the others run, and time passes
void spin() {
    spins = 0;
    if (++forced > 3000) stuck("a thread goes round without end");
    self->prio = -(int)++steps;
    const auto until = clock_ns + 1000000;
    block(nullptr, "its next round", until);
}
// false: the deadline passed
bool block(const void* on, const char* why, int64_t deadline) {
    spins = 0;
    if (++steps > budget) stuck("no end in sight");
    self->inside++;
    self->st = BLOCKED; self->on = on; self->why = why; self->deadline = deadline; self->timedout = false;
    go(choose(false));
    self->on = nullptr; self->deadline = -1;
    self->inside--;
    return !self->timedout;
}
int wake(const void* on, int n) {
    std::vector<T*> w;
    for (auto t : threads) if (t->st == BLOCKED && t->on == on) w.push_back(t);
    int k = 0;
    while (!w.empty() && k < n) { auto i = rnd() % w.size(); w[i]->st = RUN; w.erase(w.begin() + i); ++k; }
    return k;
}
static void lock(const void* m, bool recursive = false) {
    yield();
    if (owner.count(m) && owner[m] == self) { if (recursive) { ++depth[m]; return; } stuck("a thread locks a mutex it holds"); }
    while (owner.count(m)) block(m, "a mutex", -1);
    owner[m] = self; depth[m] = 1;
}
static bool trylock(const void* m) { yield(); if (owner.count(m)) return false; owner[m] = self; depth[m] = 1; return true; }
static void unlock(const void* m) {
    if (!owner.count(m) || owner[m] != self) stuck("a thread unlocks a mutex it does not hold");
    if (--depth[m]) return;
    owner.erase(m); wake(m, 1 << 20);
    yield();
}
static bool wait(const void* c, const void* m, int64_t deadline) {
    if (!owner.count(m) || owner[m] != self) stuck("a thread waits without the mutex");
    yield();
    owner.erase(m); wake(m, 1 << 20);
    bool ok = true;
    if (rnd() % 16 == 0) yield();                        // wakes for no reason
    else ok = block(c, deadline < 0 ? "a condition, with no time limit" : "a condition", deadline);
    while (owner.count(m)) block(m, "a mutex", -1);
    owner[m] = self; depth[m] = 1;
    return ok;
}
static void* trampoline(void* p) {
    self = static_cast<T*>(p);
    while (sem_wait(&self->sem)) {}
    self->inside = 0;
    self->ret = self->fn(self->arg);
    self->inside = 1;
    self->st = DONE; wake(self, 1 << 20);
    go(choose(false));
    return self->ret;
}
static pthread_mutex_t boot = PTHREAD_MUTEX_INITIALIZER;
void begin(uint64_t seed, void (*s)(const char*)) {
    rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567; for (int i = 0; i < 8; ++i) rnd();
    for (auto t : threads) { sem_destroy(&t->sem); delete t; }
    threads.clear(); owner.clear(); depth.clear(); rws.clear();
    clock_ns = 0; steps = 0; spins = forced = 0; budget = 400000; on_stuck = s;
    pol = rnd() % 3 == 0 ? 1 : 0; fine = (unsigned[]){ 0, 200, 50, 12 }[rnd() % 4];
    changes.clear();
    if (pol == 1) { fine = 1; for (int i = 0; i < 3; ++i) changes.push_back(rnd() % (i ? 3000 : 300)); }
    self = new T; self->id = 0; sem_init(&self->sem, 0, 0); self->prio = 1000000; threads.push_back(self);
    active = true;
}
void end() { active = false; }
int64_t ns(const timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
static const int64_t EPOCH = 1000000000ll * 1700000000ll;
template <class F> F real(const char* n, F& f) { if (!f) f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); return f; }
}
using namespace sched;
#define REAL(name) static decltype(&name) f_##name = nullptr; real(#name, f_##name)
extern "C" {
void __cyg_profile_func_enter(void*, void*) { 
    if (!active || !self || self->inside) return;
    if (++spins > 5000) return spin();
    if (!fine) return;
    if (pol == 1) { for (auto c : changes) if (c == steps + 1) { yield(); return; } ++steps; }
    else if (rnd() % fine == 0) yield();
}
void __cyg_profile_func_exit(void*, void*) {}
int pthread_mutex_lock(pthread_mutex_t* m) { if (on() && !self->inside) { lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP); return 0; } REAL(pthread_mutex_lock); return f_pthread_mutex_lock(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (on() && !self->inside) return trylock(m) ? 0 : EBUSY; REAL(pthread_mutex_trylock); return f_pthread_mutex_trylock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (on() && !self->inside) { unlock(m); return 0; } REAL(pthread_mutex_unlock); return f_pthread_mutex_unlock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t) {
    if (on() && !self->inside) { yield(); while (owner.count(m)) if (!block(m, "a mutex", ns(t) - EPOCH) && owner.count(m)) return ETIMEDOUT; owner[m] = self; depth[m] = 1; return 0; }
    REAL(pthread_mutex_clocklock); return f_pthread_mutex_clocklock(m, c, t);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { return pthread_mutex_clocklock(m, CLOCK_REALTIME, t); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (on()) { sched::wait(c, m, -1); return 0; } REAL(pthread_cond_wait); return f_pthread_cond_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (on()) return sched::wait(c, m, std::max<int64_t>(0, ns(t) - EPOCH)) ? 0 : ETIMEDOUT; REAL(pthread_cond_timedwait); return f_pthread_cond_timedwait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (on()) return sched::wait(c, m, std::max<int64_t>(0, ns(t) - EPOCH)) ? 0 : ETIMEDOUT; REAL(pthread_cond_clockwait); return f_pthread_cond_clockwait(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t* c) { if (on()) { yield(); wake(c, 1); yield(); return 0; } REAL(pthread_cond_signal); return f_pthread_cond_signal(c); }
int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { yield(); wake(c, 1 << 20); yield(); return 0; } REAL(pthread_cond_broadcast); return f_pthread_cond_broadcast(c); }
int pthread_cond_destroy(pthread_cond_t* c) { if (on()) return 0; REAL(pthread_cond_destroy); return f_pthread_cond_destroy(c); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (on() && !self->inside) { yield(); while (rws[l].writer || rws[l].readers) block(l, "a shared mutex", -1); rws[l].writer = self; return 0; } REAL(pthread_rwlock_wrlock); return f_pthread_rwlock_wrlock(l); }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (on() && !self->inside) { yield(); while (rws[l].writer) block(l, "a shared mutex", -1); ++rws[l].readers; return 0; } REAL(pthread_rwlock_rdlock); return f_pthread_rwlock_rdlock(l); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) { if (on() && !self->inside) { auto& r = rws[l]; if (r.writer == self) r.writer = nullptr; else --r.readers; wake(l, 1 << 20); yield(); return 0; } REAL(pthread_rwlock_unlock); return f_pthread_rwlock_unlock(l); }
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    REAL(pthread_create);
    if (!on()) return f_pthread_create(p, a, fn, arg);
    auto t = new T; t->id = (int)threads.size(); sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg; t->prio = (int)(rnd() % 1000000);
    self->inside++;
    int rc = f_pthread_create(&t->real, a, trampoline, t);
    self->inside--;
    if (rc) { delete t; return rc; }
    threads.push_back(t); *p = t->real;
    yield();
    return 0;
}
int pthread_join(pthread_t p, void** r) {
    REAL(pthread_join);
    if (on()) for (auto t : threads) if (pthread_equal(t->real, p) && t->id && !t->detached) {
        yield();
        while (t->st != DONE) block(t, "a thread to end", -1);
        t->detached = true;
    }
    return f_pthread_join(p, r);
}
int pthread_detach(pthread_t p) { if (on()) for (auto t : threads) if (pthread_equal(t->real, p) && t->id && !t->detached) t->detached = true; REAL(pthread_detach); return f_pthread_detach(p); }
int sched_yield() { if (on()) { yield(); return 0; } REAL(sched_yield); return f_sched_yield(); }
int clock_gettime(clockid_t c, timespec* t) noexcept {
    if (on()) { auto n = EPOCH + clock_ns; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
    REAL(clock_gettime); return f_clock_gettime(c, t);
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* r) {
    if (on()) { block(nullptr, "time to pass", flags & TIMER_ABSTIME ? ns(t) - EPOCH : clock_ns + ns(t)); return 0; }
    REAL(clock_nanosleep); return f_clock_nanosleep(c, flags, t, r);
}
int nanosleep(const timespec* t, timespec* r) { if (on()) { block(nullptr, "time to pass", clock_ns + ns(t)); return 0; } REAL(nanosleep); return f_nanosleep(t, r); }
int usleep(useconds_t u) { if (on()) { block(nullptr, "time to pass", clock_ns + u * 1000ll); return 0; } REAL(usleep); return f_usleep(u); }
long syscall(long n, ...) noexcept {
    va_list v; va_start(v, n); long a[6]; for (auto& x : a) x = va_arg(v, long); va_end(v);
    if (on() && n == SYS_futex) {
        auto addr = reinterpret_cast<int*>(a[0]); int cmd = a[1] & FUTEX_CMD_MASK; auto ts = reinterpret_cast<const timespec*>(a[3]);
        if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
            yield();
            if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            int64_t d = !ts ? -1 : cmd == FUTEX_WAIT ? clock_ns + ns(ts) : ns(ts) - EPOCH;
            if (!block(addr, "a change", d)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) { int k = wake(addr, (int)a[2]); yield(); return k; }
    }
    static long (*f)(long, ...) = nullptr; real("syscall", f);
    return f(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
}
