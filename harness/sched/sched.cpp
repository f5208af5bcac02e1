#include "sched.hh"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <unistd.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <execinfo.h>

namespace {
enum St { RUN, MUTEX, COND, SLEEP, JOIN, DONE };
struct Th {
    St st = DONE; sem_t sem; pthread_t real; void* what = nullptr; int64_t deadline = -1; bool timedout = false, signaled = false;
    void* (*fn)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr; int64_t prio = 0; int joinTarget = -1; bool detached = false; pthread_mutex_t* remtx = nullptr;
};
const int MAXT = 128;
Th th[MAXT]; int nth = 0, cur = 0; bool on = false; __thread int me = -1; __thread int inrt = 0;
sched::Params P; uint64_t rngs; uint64_t stepn = 0; int64_t vnow = 0; // ns
const int64_t EPOCH = 1700000000LL * 1000000000LL;
uint64_t changeAt[16]; int64_t lowPrio = 0;

uint64_t rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs * 2685821657736338717ULL; }
unsigned rnd(unsigned n) { return (rnd() >> 33) % n; }

void die(const char* what, int code) {
    inrt++;
    char b[512]; int n = snprintf(b, sizeof b, "%s\n", what); if (write(2, b, n)) {}
    for (int i = 0; i < nth; i++) { n = snprintf(b, sizeof b, "  thread %d state %d what %p%s\n", i, th[i].st, th[i].what, i == cur ? " (current)" : ""); if (write(2, b, n)) {} }
    void* bt[40]; int k = backtrace(bt, 40); backtrace_symbols_fd(bt, k, 2);
    fflush(nullptr);
    _exit(code);
}
int& owner(void* m) { return *(int*)m; } // first word of pthread_mutex_t: owner + 1
bool canRun(Th& t) {
    switch (t.st) {
        case RUN: return true;
        case MUTEX: return owner(t.what) == 0;
        case COND: return t.signaled || (t.deadline >= 0 && t.deadline <= vnow);
        case SLEEP: return t.deadline <= vnow;
        case JOIN: return th[t.joinTarget].st == DONE;
        default: return false;
    }
}
int64_t nextDeadline() {
    int64_t d = -1;
    for (int i = 0; i < nth; i++) if ((th[i].st == SLEEP || (th[i].st == COND && !th[i].signaled)) && th[i].deadline >= 0 && (d < 0 || th[i].deadline < d)) d = th[i].deadline;
    return d;
}
void checkCycle(int t) { // mutex deadlock among controlled threads
    int x = t, n = 0;
    while (th[x].st == MUTEX) {
        int o = owner(th[x].what) - 1; if (o < 0) return;
        if (o == t) die("SCHED-DEADLOCK: cycle of mutexes", 97);
        x = o; if (++n > MAXT) return;
    }
    if (th[x].st == JOIN) { /* joins are followed by quiescence detection */ }
}
void wake(int t) { // thread t goes on
    Th& x = th[t];
    if (x.st == COND) { x.timedout = !x.signaled; }
    x.st = RUN; x.deadline = -1;
}
void switchTo(int t) {
    int old = cur; if (t == old && th[t].st == RUN) return;
    wake(t); cur = t;
    if (t == old) return;
    sem_post(&th[t].sem);
    if (th[old].st != DONE) { while (sem_wait(&th[old].sem) != 0) {} }
}
// picks and runs the next thread; the current one may be blocked
void resched(bool mayStay) {
    for (;;) {
        int c[MAXT], n = 0;
        for (int i = 0; i < nth; i++) if (canRun(th[i])) c[n++] = i;
        if (n == 0) {
            int64_t d = nextDeadline();
            if (d < 0) die("SCHED-DEADLOCK: no thread can run", 97);
            if (d > P.maxVirtualMs * 1000000LL) die("SCHED-STUCK: virtual time limit", 96);
            if (sched::onIdle) { inrt++; sched::onIdle(vnow / 1000, d / 1000); inrt--; }
            if (d > vnow) vnow = d;
            continue;
        }
        int t;
        if (P.strategy == 1) { t = c[0]; for (int i = 1; i < n; i++) if (th[c[i]].prio > th[t].prio) t = c[i]; }
        else {
            t = c[rnd(n)];
            if (mayStay && th[cur].st == RUN) { /* explicit switch requested: prefer another one */ if (t == cur && n > 1) t = c[(rnd(n))]; }
        }
        switchTo(t); return;
    }
}
void point(bool sync) {
    if (!on || me < 0 || inrt) return;
    inrt++;
    stepn++;
    if (stepn > P.maxSteps) die("SCHED-LIVELOCK: step limit", 96);
    if (P.strategy == 1) {
        for (unsigned i = 0; i < P.changes; i++) if (changeAt[i] == stepn) th[cur].prio = --lowPrio;
        if (sync && P.pTime && rnd(10000) < P.pTime) { int64_t d = nextDeadline(); if (d > vnow) vnow = d; }
        resched(true);
    } else {
        if (sync && P.pTime && rnd(10000) < P.pTime) { int64_t d = nextDeadline(); if (d > vnow) vnow = d; }
        if (rnd(10000) < (sync ? P.pSync : P.pMem)) resched(true);
    }
    inrt--;
}
template <class F> F real(const char* n) { static_assert(sizeof(F) == sizeof(void*), ""); void* p = dlsym(RTLD_NEXT, n); return (F)p; }
void* tramp(void* a) {
    Th* t = (Th*)a; me = t - th;
    while (sem_wait(&t->sem) != 0) {}
    inrt = 0;
    t->ret = t->fn(t->arg);
    inrt++;
    t->st = DONE;
    if (on) {
        // hand over for good
        for (;;) {
            int c[MAXT], n = 0; for (int i = 0; i < nth; i++) if (canRun(th[i])) c[n++] = i;
            if (n == 0) { int64_t d = nextDeadline(); if (d < 0) { die("SCHED-DEADLOCK: no thread can run", 97); }
                if (d > P.maxVirtualMs * 1000000LL) die("SCHED-STUCK: virtual time limit", 96);
                if (sched::onIdle) sched::onIdle(vnow / 1000, d / 1000);
                if (d > vnow) vnow = d; continue; }
            int k = c[0];
            if (P.strategy == 1) { for (int i = 1; i < n; i++) if (th[c[i]].prio > th[k].prio) k = c[i]; } else k = c[rnd(n)];
            wake(k); cur = k; sem_post(&th[k].sem); break;
        }
    }
    return t->ret;
}
// ---- memory: bump arena with a state per 16-byte granule, so that accesses to freed memory are seen
const size_t ARENA = 6ULL << 30; char* arena = nullptr; size_t used = 0; unsigned char* gran = nullptr; bool track = false;
void* amalloc(size_t n) {
    if (!arena) {
        arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        gran = (unsigned char*)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED || gran == MAP_FAILED) abort();
    }
    size_t tot = (n + 16 + 15) / 16 * 16 + 16; // 16 header, 16 red zone
    size_t at = __sync_fetch_and_add(&used, tot);
    if (at + tot > ARENA) { if (write(2, "arena exhausted\n", 16)) {} _exit(3); }
    *(size_t*)(arena + at) = n;
    return arena + at + 16;
}
void afree(void* p) {
    if (!p) return;
    char* c = (char*)p; if (c < arena || c >= arena + ARENA) { free(p); return; }
    size_t g = (c - arena) / 16; size_t n = *(size_t*)(c - 16); size_t k = (n + 15) / 16; if (!k) k = 1;
    if (gran[g]) die("SCHED-DOUBLE-FREE", 99);
    memset(gran + g, 1, k);
    if (n <= 4096) memset(p, 0xDD, n);
}
inline void access(void* a, bool) {
    if (!on || inrt || me < 0) return;
    char* c = (char*)a;
    if (c >= arena && c < arena + ARENA && gran[(c - arena) / 16]) die("SCHED-USE-AFTER-FREE: access to destroyed object", 99);
    point(false);
}
inline void touch(void* a) { char* c = (char*)a; if (on && me >= 0 && !inrt && c >= arena && c < arena + ARENA && gran[(c - arena) / 16]) die("SCHED-USE-AFTER-FREE: synchronisation on a destroyed object", 99); }
} // namespace

namespace sched {
void (*onIdle)(int64_t, int64_t) = nullptr;
void start(const Params& p) {
    P = p; rngs = p.seed * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 8; i++) rnd();
    nth = 1; cur = 0; me = 0; stepn = 0; vnow = 0; lowPrio = 0; th[0] = Th(); th[0].st = RUN; sem_init(&th[0].sem, 0, 0); th[0].prio = 1 + rnd(1000000);
    for (unsigned i = 0; i < 16; i++) changeAt[i] = 1 + rnd() % (p.length ? p.length : 1);
    on = true;
}
void stop() { on = false; me = -1; }
int64_t nowUs() { return vnow / 1000; }
void yield() { point(true); }
void advance(int64_t us) { if (active()) vnow += us * 1000; }
uint64_t steps() { return stepn; }
int self() { return me; }
bool active() { return on && me >= 0; }
void sleepUs(int64_t us) {
    if (!active()) return;
    inrt++; Th& t = th[cur]; t.st = SLEEP; t.deadline = vnow + us * 1000; resched(false); inrt--;
}
}
using sched::active;

extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
    if (!active()) return f(out, at, fn, arg);
    inrt++;
    if (nth >= MAXT) die("too many threads", 3);
    Th* t = &th[nth]; *t = Th(); sem_init(&t->sem, 0, 0); t->fn = fn; t->arg = arg; t->st = RUN; t->prio = 1 + rnd(1000000);
    nth++;
    int r = f(&t->real, at, tramp, t); *out = t->real;
    inrt--;
    point(true);
    return r;
}
int pthread_join(pthread_t p, void** ret) {
    static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
    if (!active()) return f(p, ret);
    inrt++;
    for (int i = nth - 1; i > 0; i--) if (pthread_equal(th[i].real, p)) { // the newest one: ids are used again
        if (th[i].st != DONE) { th[cur].st = JOIN; th[cur].joinTarget = i; th[cur].what = nullptr; resched(false); }
        break;
    }
    int r = f(p, ret);
    inrt--; point(true);
    return r;
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!active()) { return 0; }
    touch(m); point(true); inrt++;
    while (owner(m)) {
        if (owner(m) == cur + 1) die("SCHED-DEADLOCK: thread locks a mutex it holds", 97);
        th[cur].st = MUTEX; th[cur].what = m; checkCycle(cur); resched(false);
    }
    owner(m) = cur + 1; inrt--;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!active()) return 0;
    touch(m); point(true);
    if (owner(m)) return EBUSY;
    owner(m) = cur + 1; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!active()) return 0;
    touch(m); owner(m) = 0; point(true);
    return 0;
}
static int cwait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
    touch(c); point(true); inrt++;
    Th& t = th[cur]; t.st = COND; t.what = c; t.deadline = deadline; t.signaled = false; t.timedout = false;
    if (deadline >= 0 && deadline <= vnow) t.deadline = vnow;
    owner(m) = 0;
    resched(false);
    bool to = th[cur].timedout;
    while (owner(m)) { th[cur].st = MUTEX; th[cur].what = m; resched(false); }
    owner(m) = cur + 1; inrt--;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!active()) return 0; return cwait(c, m, -1); }
static int64_t rel(const struct timespec* a) { return a->tv_sec * 1000000000LL + a->tv_nsec - EPOCH; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a) { if (!active()) return ETIMEDOUT; int64_t d = rel(a); return cwait(c, m, d < 0 ? 0 : d); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* a) { if (!active()) return ETIMEDOUT; int64_t d = rel(a); return cwait(c, m, d < 0 ? 0 : d); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!active()) return 0;
    touch(c); point(true); inrt++;
    int w[MAXT], n = 0; for (int i = 0; i < nth; i++) if (th[i].st == COND && th[i].what == c && !th[i].signaled) w[n++] = i;
    if (n) th[w[P.strategy == 1 ? rnd(n) : rnd(n)]].signaled = true;
    inrt--; return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!active()) return 0;
    touch(c); point(true);
    for (int i = 0; i < nth; i++) if (th[i].st == COND && th[i].what == c) th[i].signaled = true;
    return 0;
}
int clock_gettime(clockid_t id, struct timespec* ts) {
    static auto f = real<int (*)(clockid_t, struct timespec*)>("clock_gettime");
    if (!active()) return f(id, ts);
    if (!inrt) vnow += 100;
    int64_t t = EPOCH + vnow; ts->tv_sec = t / 1000000000LL; ts->tv_nsec = t % 1000000000LL; return 0;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int nanosleep(const struct timespec* a, struct timespec*) {
    static auto f = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
    if (!active()) return f(a, nullptr);
    point(true); sched::sleepUs(a->tv_sec * 1000000LL + (a->tv_nsec + 999) / 1000); return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec*) {
    if (!active()) return 0;
    point(true);
    if (flags & TIMER_ABSTIME) { int64_t d = rel(a); if (d > vnow) sched::sleepUs((d - vnow) / 1000); } else sched::sleepUs(a->tv_sec * 1000000LL + (a->tv_nsec + 999) / 1000);
    return 0;
}
int usleep(useconds_t us) { if (!active()) return 0; point(true); sched::sleepUs(us); return 0; }
int sched_yield() { point(true); return 0; }

// ---- memory access instrumentation (gcc -fsanitize=thread, without its runtime)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void*) {}
void __tsan_vptr_update(void** a, void*) { access(a, true); }
void __tsan_vptr_read(void** a) { access(a, false); }
#define RW(n) void __tsan_read##n(void* a) { access(a, false); } void __tsan_write##n(void* a) { access(a, true); } \
    void __tsan_unaligned_read##n(void* a) { access(a, false); } void __tsan_unaligned_write##n(void* a) { access(a, true); } \
    void __tsan_volatile_read##n(void* a) { access(a, false); } void __tsan_volatile_write##n(void* a) { access(a, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long) { access(a, false); }
void __tsan_write_range(void* a, unsigned long) { access(a, true); }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { access((void*)a, false); return *a; } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { access((void*)a, true); *a = v; } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { access((void*)a, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { access((void*)a, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { access((void*)a, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { access((void*)a, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { access((void*)a, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { access((void*)a, true); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { access((void*)a, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { access((void*)a, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int, int) { access((void*)a, true); T o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n) { return amalloc(n); }
void* operator new[](size_t n) { return amalloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return amalloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return amalloc(n); }
void operator delete(void* p) noexcept { afree(p); }
void operator delete[](void* p) noexcept { afree(p); }
void operator delete(void* p, size_t) noexcept { afree(p); }
void operator delete[](void* p, size_t) noexcept { afree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { afree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { afree(p); }
