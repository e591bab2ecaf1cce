#include "ctlsched.h"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {

constexpr int MAXT = 16;

long rawFutex(int* addr, int op, int val) {
    long ret;
    register long r10 __asm__("r10") = 0;
    register long r8 __asm__("r8")   = 0;
    register long r9 __asm__("r9")   = 0;
    __asm__ volatile("syscall"
                     : "=a"(ret)
                     : "a"(SYS_futex), "D"(addr), "S"(long(op)), "d"(long(val)), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return ret;
}

struct VC {
    uint32_t c[MAXT];
    void join(const VC& o) {
        for (int i = 0; i < MAXT; i++)
            if (o.c[i] > c[i])
                c[i] = o.c[i];
    }
};

enum State { UNUSED, RUNNABLE, BLOCKED, FINISHED };

struct Thread {
    State state;
    const void* waitFor;  // address or thread waited for
    bool timed;           // may wake up by timing out
    bool timedOut;
    int go;  // futex word
    VC vc;
    pthread_t handle;
    bool haveHandle;
    bool detached;
    void* (*fn)(void*);
    void* arg;
    uintptr_t stackLo, stackHi;
    unsigned spin;  // atomic operations since it was last scheduled
};

Thread T[MAXT];
int nthreads = 0;
mc::Ctx* ctx = nullptr;
bool active  = false;   // a session is in progress
bool draining = false;
sched::Options opts;
sched::Result res;
int creates = 0;
thread_local int me __attribute__((tls_model("initial-exec"))) = -1;
thread_local int inside __attribute__((tls_model("initial-exec"))) = 0;

struct Guard {
    Guard() { inside++; }
    ~Guard() { inside--; }
};

bool managed() { return active && me >= 0 && !inside; }

// ------------------------------------------------------------------------------------------ synchronisation objects

struct Sync {
    const void* addr;
    uint32_t gen;
    VC vc;
    int owner;  // thread holding it (mutex, rwlock for writing), or -1
    int count;
    int readers;
    uint16_t users;  // bit set of threads that touched it
};
constexpr int NSYNC = 1 << 14;
Sync* syncTab;
uint32_t gen = 0;
int nsync = 0;
Sync* syncList[NSYNC];

void fatal(const char* m) {
    fprintf(stderr, "sched: %s\n", m);
    fflush(stderr);
    abort();
}

Sync& syncOf(const void* a) {
    uintptr_t h = (uintptr_t(a) >> 2) * 0x9E3779B97F4A7C15ull;
    for (int i = int(h >> 50) & (NSYNC - 1);; i = (i + 1) & (NSYNC - 1)) {
        Sync& s = syncTab[i];
        if (s.gen != gen) {
            if (++nsync > NSYNC / 2)
                fatal("too many synchronisation objects");
            syncList[nsync - 1] = &s;
            memset(&s, 0, sizeof s);
            s.gen   = gen;
            s.addr  = a;
            s.owner = -1;
            return s;
        }
        if (s.addr == a)
            return s;
    }
}
void acquire(Sync& s) { T[me].vc.join(s.vc); }
void release(Sync& s) {
    s.vc.join(T[me].vc);
    T[me].vc.c[me]++;
}

// ------------------------------------------------------------------------------------------ shadow memory

struct Access {
    uint32_t clk;
    uint8_t tid;
    uint8_t mask;
    bool write, atomic;
    const void* pc;
};
constexpr int NACC = 6;
struct Cell {
    uintptr_t granule;
    uint32_t gen;
    uint8_t n;
    Access a[NACC];
};
constexpr int NCELL = 1 << 18;
Cell* cells;
int ncells = 0;
int usedCells[NCELL];
bool concurrent = false;  // more than one thread alive

Cell* cellOf(uintptr_t g, bool create) {
    uintptr_t h = g * 0x9E3779B97F4A7C15ull;
    for (int i = int(h >> 46) & (NCELL - 1);; i = (i + 1) & (NCELL - 1)) {
        Cell& c = cells[i];
        if (c.gen != gen) {
            if (!create)
                return nullptr;
            if (++ncells > NCELL / 4 * 3)
                fatal("shadow memory full");
            usedCells[ncells - 1] = i;
            c.gen     = gen;
            c.granule = g;
            c.n       = 0;
            return &c;
        }
        if (c.granule == g)
            return &c;
    }
}

std::string where(const void* pc) {
    Dl_info i;
    if (dladdr(pc, &i) && i.dli_sname) {
        int st    = 0;
        char* d   = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        std::string s = d ? d : i.dli_sname;
        free(d);
        size_t p = s.find('(');
        return s.substr(0, std::min(p, size_t(120)));
    }
    return "?";
}

void race(const Access& o, const Access& n, uintptr_t addr) {
    if (!res.race.empty())
        return;
    Guard g;
    std::string a = where(o.pc), b = where(n.pc);
    res.raceKey = "race:" + std::min(a, b) + "|" + std::max(a, b);
    res.race    = mc::fmt("unsynchronised %s by thread %d in %s and %s by thread %d in %s of the same memory",
                          o.write ? "write" : "read", o.tid, a.c_str(), n.write ? "write" : "read", n.tid, b.c_str());
    if (getenv("SCHED_DEBUG"))
        fprintf(stderr, "RACE %s pc %p %p addr %lx\n", res.race.c_str(), o.pc, n.pc, (unsigned long)addr);
}

void accessGranule(uintptr_t g, uint8_t mask, bool write, bool atomic, const void* pc) {
    Cell* c = cellOf(g, true);
    Access n{T[me].vc.c[me], uint8_t(me), mask, write, atomic, pc};
    int slot = -1;
    for (int i = 0; i < c->n; i++) {
        Access& o = c->a[i];
        if (o.tid == me) {
            if ((o.mask & ~mask) == 0 && (!o.write || write) && (o.atomic == atomic || !atomic))
                slot = i;  // subsumed by the new one
            continue;
        }
        if ((o.mask & mask) && (o.write || write) && !(o.atomic && atomic) && o.clk > T[me].vc.c[o.tid])
            race(o, n, g * 8);
    }
    if (slot < 0) {
        // entries ordered before everything this thread now does can be replaced
        if (c->n < NACC)
            slot = c->n++;
        else {
            slot = 0;
            for (int i = 0; i < NACC; i++)
                if (c->a[i].tid == me || c->a[i].clk <= T[me].vc.c[c->a[i].tid]) {
                    slot = i;
                    break;
                }
        }
    }
    c->a[slot] = n;
}

inline void access(const void* p, size_t n, bool write, bool atomic, const void* pc) {
    if (!active || inside || me < 0 || !concurrent || n == 0)
        return;
    Guard gd;
    uintptr_t a = uintptr_t(p), e = a + n;
    if (a >= T[me].stackLo && a < T[me].stackHi && me != 0 && false)
        return;
    res.tracked = true;
    while (a < e) {
        uintptr_t g = a >> 3;
        unsigned lo = a & 7, hi = std::min<uintptr_t>(e - (g << 3), 8);
        accessGranule(g, uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1)), write, atomic, pc);
        a = (g + 1) << 3;
    }
}

void clearRange(const void* p, size_t n) {
    if (!n)
        return;
    for (int i = 0; i < nsync; i++) {
        Sync& s = *syncList[i];
        if (uintptr_t(s.addr) - uintptr_t(p) < n) {
            const void* a = s.addr;
            memset(&s, 0, sizeof s);
            s.gen   = gen;
            s.addr  = a;
            s.owner = -1;
        }
    }
    uintptr_t g = uintptr_t(p) >> 3, e = (uintptr_t(p) + n + 7) >> 3;
    if (e - g > uintptr_t(ncells)) {
        for (int i = 0; i < ncells; i++) {
            Cell& c = cells[usedCells[i]];
            if (c.granule >= g && c.granule < e)
                c.n = 0;
        }
        return;
    }
    for (; g < e; g++)
        if (Cell* c = cellOf(g, false))
            c->n = 0;
}

// ------------------------------------------------------------------------------------------ scheduling

void updateConcurrent() {
    int n = 0;
    for (int i = 0; i < nthreads; i++)
        n += T[i].state == RUNNABLE || T[i].state == BLOCKED || (T[i].haveHandle && !T[i].detached);
    concurrent = n > 1;
}

void waitTurn(int t) {
    while (!__atomic_load_n(&T[t].go, __ATOMIC_ACQUIRE))
        rawFutex(&T[t].go, FUTEX_WAIT, 0);
    __atomic_store_n(&T[t].go, 0, __ATOMIC_RELAXED);
}

void wake(int t) {
    __atomic_store_n(&T[t].go, 1, __ATOMIC_RELEASE);
    rawFutex(&T[t].go, FUTEX_WAKE, 1);
}

void switchTo(int t) {
    int old = me;
    if (t == old)
        return;
    res.switches++;
    T[t].spin = 0;
    bool gone = T[old].state == FINISHED;
    wake(t);
    if (!gone)
        waitTurn(old);
}

int others(int* out) {
    int n = 0;
    for (int i = 0; i < nthreads; i++)
        if (i != me && (T[i].state == RUNNABLE || (T[i].state == BLOCKED && T[i].timed)))
            out[n++] = i;
    return n;
}

void resume(int t) {
    if (T[t].state == BLOCKED) {  // a timed wait which times out
        T[t].state    = RUNNABLE;
        T[t].timedOut = true;
    }
    switchTo(t);
}

void schedulePoint() {
    int o[MAXT];
    int n = others(o);
    // a timed waiter only runs by itself when nothing else can
    int k = 0;
    for (int i = 0; i < n; i++)
        if (T[o[i]].state == RUNNABLE)
            o[k++] = o[i];
    n = k;
    if (!n)
        return;
    res.points++;
    if (draining)
        return;
    int c = ctx->dev(n + 1, "preempt");
    if (c)
        resume(o[c - 1]);
}

// the current thread cannot go on (blocked or finished): some other one does
void mustSwitch(const char* why) {
    int o[MAXT];
    int n = others(o);
    int k = 0, r[MAXT];
    for (int i = 0; i < n; i++)
        if (T[o[i]].state == RUNNABLE)
            r[k++] = o[i];
    if (k) {
        n = k;
        memcpy(o, r, sizeof r);
    }
    if (n == 0) {
        if (T[me].state == BLOCKED && T[me].timed) {
            T[me].state    = RUNNABLE;
            T[me].timedOut = true;
            return;
        }
        ctx->at(std::string("deadlock"));
        fprintf(stderr, "sched: deadlock (%s): no thread can run\n", why);
        for (int i = 0; i < nthreads; i++)
            fprintf(stderr, "  thread %d: %s\n", i, T[i].state == FINISHED ? "finished" : "blocked");
        fflush(stderr);
        abort();
    }
    int c = draining ? 0 : ctx->choose(n, "next");
    resume(o[c]);
}

void block(const void* on, bool timed = false) {
    T[me].state    = BLOCKED;
    T[me].waitFor  = on;
    T[me].timed    = timed;
    T[me].timedOut = false;
    mustSwitch("blocked");
}
void unblock(const void* on, int howMany = MAXT) {
    for (int i = 0; i < nthreads && howMany; i++)
        if (T[i].state == BLOCKED && T[i].waitFor == on) {
            T[i].state = RUNNABLE;
            howMany--;
        }
}

// ------------------------------------------------------------------------------------------ real functions

#define REAL(ret, name, ...)                     \
    typedef ret (*fn_##name##_t)(__VA_ARGS__);     \
    fn_##name##_t real_##name() {                     \
        static fn_##name##_t f;                      \
        if (!f)                                  \
            f = fn_##name##_t(dlsym(RTLD_NEXT, #name)); \
        return f;                                \
    }
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*)
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
REAL(int, pthread_once, pthread_once_t*, void (*)())
REAL(int, sched_yield, void)
REAL(int, nanosleep, const struct timespec*, struct timespec*)
REAL(int, __cxa_guard_acquire, void*)
REAL(void, __cxa_guard_release, void*)

void* trampoline(void* p) {
    int t = int(intptr_t(p));
    inside++;
    me = t;
    pthread_attr_t at;
    void* lo  = nullptr;
    size_t sz = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0) {
        pthread_attr_getstack(&at, &lo, &sz);
        pthread_attr_destroy(&at);
    }
    T[t].stackLo = uintptr_t(lo);
    T[t].stackHi = uintptr_t(lo) + sz;
    waitTurn(t);
    // the stack may have belonged to an earlier thread
    if (sz)
        clearRange(lo, sz);
    inside--;
    void* r = T[t].fn(T[t].arg);
    inside++;
    Thread& th = T[t];
    th.state   = FINISHED;
    unblock(&th);
    updateConcurrent();
    me = t;
    mustSwitch("thread exit");
    me = -1;  // what follows (destructors of thread locals) is outside the session
    inside--;
    return r;
}

int findThread(pthread_t h) {
    for (int i = 0; i < nthreads; i++)
        if (T[i].haveHandle && !T[i].detached && pthread_equal(T[i].handle, h))
            return i;
    return -1;
}

int lockMutex(pthread_mutex_t* m, bool tryOnly) {
    Guard g;
    schedulePoint();
    for (;;) {
        Sync& s = syncOf(m);
        if (s.owner == -1 || s.owner == me) {
            int r = real_pthread_mutex_trylock()(m);
            if (r == EBUSY && s.owner == me) {
                if (tryOnly)
                    return EBUSY;
                ctx->at(std::string("deadlock"));
                fprintf(stderr, "sched: a thread locks a mutex it already holds\n");
                abort();
            }
            if (r == EBUSY)
                r = real_pthread_mutex_lock()(m);  // held outside the session for a moment
            if (r)
                return r;
            s.owner = me;
            s.count++;
            acquire(s);
            return 0;
        }
        if (tryOnly)
            return EBUSY;
        block(m);
    }
}

int unlockMutex(pthread_mutex_t* m) {
    Guard g;
    Sync& s = syncOf(m);
    if (s.owner == me) {
        release(s);
        if (--s.count == 0) {
            s.owner = -1;
            unblock(m);
        }
    }
    return real_pthread_mutex_unlock()(m);
}

int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    unlockMutex(m);
    bool out;
    {
        Guard g;
        block(c, timed);
        out = T[me].timedOut;
        acquire(syncOf(c));
    }
    int saved = 0;
    (void)saved;
    lockMutex(m, false);
    return out ? ETIMEDOUT : 0;
}

}  // namespace

namespace sched {

void begin(mc::Ctx& c, Options o) {
    Guard g;
    if (!syncTab) {
        syncTab = static_cast<Sync*>(mmap(nullptr, sizeof(Sync) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        cells   = static_cast<Cell*>(mmap(nullptr, sizeof(Cell) * size_t(NCELL), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }
    gen++;
    nsync = ncells = 0;
    memset(static_cast<void*>(T), 0, sizeof T);
    nthreads     = 1;
    me           = 0;
    T[0].state   = RUNNABLE;
    T[0].vc.c[0] = 1;
    ctx          = &c;
    opts         = o;
    res          = Result();
    creates      = 0;
    draining     = false;
    concurrent   = false;
    active       = true;
}

int alive() {
    int n = 0;
    for (int i = 1; i < nthreads; i++)
        n += T[i].state != FINISHED;
    return n;
}

int self() {
    return me;
}

Result end() {
    Guard g;
    if (!active)
        return res;
    res.leftRunning = alive();
    draining        = true;
    while (alive()) {
        int o[MAXT];
        if (!others(o))
            break;
        resume(o[0]);
    }
    res.threads = nthreads - 1;
    active      = false;
    me          = -1;
    return res;
}

void point() {
    if (!managed())
        return;
    Guard g;
    schedulePoint();
}

}  // namespace sched

// ---------------------------------------------------------------------------------------------- interposed functions

extern "C" {

int pthread_create(pthread_t* h, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
    if (!managed())
        return real_pthread_create()(h, attr, fn, arg);
    Guard g;
    if (creates++ == opts.failCreate)
        return EAGAIN;
    if (nthreads == MAXT)
        fatal("too many threads");
    int t    = nthreads;
    Thread& n = T[t];
    n.fn     = fn;
    n.arg    = arg;
    n.vc     = T[me].vc;
    n.vc.c[t] = 1;
    n.go     = 0;
    int r    = real_pthread_create()(&n.handle, attr, trampoline, reinterpret_cast<void*>(intptr_t(t)));
    if (r)
        return r;
    *h           = n.handle;
    n.haveHandle = true;
    n.state      = RUNNABLE;
    nthreads++;
    T[me].vc.c[me]++;
    updateConcurrent();
    schedulePoint();
    return 0;
}

int pthread_join(pthread_t h, void** ret) {
    if (!managed())
        return real_pthread_join()(h, ret);
    Guard g;
    int t = findThread(h);
    if (t < 0)
        return real_pthread_join()(h, ret);
    schedulePoint();
    while (T[t].state != FINISHED)
        block(&T[t]);
    T[me].vc.join(T[t].vc);
    T[t].haveHandle = false;
    updateConcurrent();
    return real_pthread_join()(h, ret);
}

int pthread_detach(pthread_t h) {
    if (managed()) {
        int t = findThread(h);
        if (t >= 0)
            T[t].detached = true;
    }
    return real_pthread_detach()(h);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    return managed() ? lockMutex(m, false) : real_pthread_mutex_lock()(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    return managed() ? lockMutex(m, true) : real_pthread_mutex_trylock()(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    return managed() ? unlockMutex(m) : real_pthread_mutex_unlock()(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) {
    return pthread_mutex_lock(m);
}

int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!managed())
        return real_pthread_rwlock_wrlock()(m);
    Guard g;
    schedulePoint();
    while (syncOf(m).owner != -1 || syncOf(m).readers)
        block(m);
    syncOf(m).owner = me;
    acquire(syncOf(m));
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!managed())
        return real_pthread_rwlock_rdlock()(m);
    Guard g;
    schedulePoint();
    while (syncOf(m).owner != -1)
        block(m);
    syncOf(m).readers++;
    acquire(syncOf(m));
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!managed())
        return real_pthread_rwlock_unlock()(m);
    Guard g;
    Sync& s = syncOf(m);
    release(s);
    if (s.owner == me)
        s.owner = -1;
    else if (s.readers)
        s.readers--;
    unblock(m);
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    return managed() ? condWait(c, m, false) : real_pthread_cond_wait()(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    return managed() ? condWait(c, m, true) : real_pthread_cond_timedwait()(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    return managed() ? condWait(c, m, true) : real_pthread_cond_clockwait()(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!managed())
        return real_pthread_cond_signal()(c);
    Guard g;
    release(syncOf(c));
    unblock(c, 1);
    schedulePoint();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!managed())
        return real_pthread_cond_broadcast()(c);
    Guard g;
    release(syncOf(c));
    unblock(c);
    schedulePoint();
    return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!managed())
        return real_pthread_once()(o, fn);
    Sync* s;
    {
        Guard g;
        s = &syncOf(o);
        if (s->owner != -1 && s->owner != me) {  // another thread is inside
            while (s->owner != -1)
                block(o);
        }
        s->owner = me;
    }
    int r;
    struct Leave {
        pthread_once_t* o;
        ~Leave() {
            Guard g;
            Sync& s = syncOf(o);
            s.owner = -1;
            acquire(s);
            release(s);
            unblock(o);
        }
    } leave{o};
    r = real_pthread_once()(o, fn);
    return r;
}

int sched_yield(void) {
    if (!managed())
        return real_sched_yield()();
    Guard g;
    int o[MAXT];
    int n = others(o);
    if (n) {
        int c = draining ? 0 : ctx->choose(n, "yield");
        resume(o[c]);
    }
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    return managed() ? sched_yield() : real_nanosleep()(a, b);
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) {
    return managed() ? sched_yield() : real_nanosleep()(a, b);
}
int usleep(useconds_t u) {
    struct timespec t = {long(u / 1000000), long(u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}

// libstdc++ waits for futures by the futex system call
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && managed()) {
        Guard g;
        int op = int(a[1]) & 0x7f & ~FUTEX_PRIVATE_FLAG;
        void* addr = reinterpret_cast<void*>(a[0]);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*static_cast<volatile int*>(addr) != int(a[2])) {
                errno = EAGAIN;
                return -1;
            }
            block(addr, a[3] != 0);
            if (T[me].timedOut) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            unblock(addr, int(std::min<long>(a[2], MAXT)));
            schedulePoint();
            return 0;
        }
    }
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8")   = a[4];
    register long r9 __asm__("r9")   = a[5];
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) {
        errno = int(-ret);
        return -1;
    }
    return ret;
}

#ifdef SCHED_TRACK

// ---------------------------------------------------------------------------------------------- initialisation guards

int __cxa_guard_acquire(void* g) {
    int r = real___cxa_guard_acquire()(g);
    if (r == 0 && managed()) {
        Guard gd;
        acquire(syncOf(g));
    }
    return r;
}
void __cxa_guard_release(void* g) {
    if (managed()) {
        Guard gd;
        release(syncOf(g));
    }
    real___cxa_guard_release()(g);
}

// ---------------------------------------------------------------------------------------------- memory

void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);

static void fresh(void* p, size_t n) {
    if (active && concurrent && p && me >= 0 && !inside) {
        Guard g;
        clearRange(p, n);
    }
}
void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    fresh(p, n);
    return p;
}
void* calloc(size_t a, size_t b) {
    void* p = __libc_calloc(a, b);
    fresh(p, a * b);
    return p;
}
static void freed(void* p, const void* pc) {
    if (active && concurrent && p && me >= 0 && !inside) {
        // giving memory back conflicts with any unordered access to it
        Guard g;
        size_t n = malloc_usable_size(p);
        Access a{T[me].vc.c[me], uint8_t(me), 0xff, true, false, pc};
        for (uintptr_t gr = uintptr_t(p) >> 3, e = (uintptr_t(p) + n) >> 3; gr < e; gr++)
            if (Cell* c = cellOf(gr, false)) {
                for (int i = 0; i < c->n; i++)
                    if (c->a[i].tid != me && c->a[i].clk > T[me].vc.c[c->a[i].tid])
                        race(c->a[i], a, gr * 8);
                c->n = 0;
            }
    }
}
void* realloc(void* q, size_t n) {
    freed(q, __builtin_return_address(0));
    void* p = __libc_realloc(q, n);
    fresh(p, n);
    return p;
}
void free(void* p) {
    freed(p, __builtin_return_address(0));
    __libc_free(p);
}

#define PC __builtin_return_address(0)

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v)
        access(p, 8, true, false, PC);
}
void __tsan_vptr_read(void** p) {
    access(p, 8, false, false, PC);
}
#define RW(n)                                                                      \
    void __tsan_read##n(void* p) { access(p, n, false, false, PC); }               \
    void __tsan_write##n(void* p) { access(p, n, true, false, PC); }               \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, PC); }     \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, PC); }     \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, false, PC); }      \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) {
    access(p, n, false, false, PC);
}
void __tsan_write_range(void* p, size_t n) {
    access(p, n, true, false, PC);
}
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
    return __real_memcpy(d, s, n);
}
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
    return __real_memmove(d, s, n);
}
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n) {
    access(d, n, true, false, PC);
    return __real_memset(d, c, n);
}

// an atomic operation: a scheduling point when its address is shared by threads
static void atomicOp(const volatile void* p, size_t n, bool write, int mo, bool load, const void* pc) {
    if (!managed() || !concurrent)
        return;
    Guard g;
    const void* a = const_cast<const void*>(p);
    uint16_t u;
    {
        Sync& s = syncOf(a);
        s.users |= uint16_t(1u << me);
        u = s.users;
    }
    if (opts.atomics && (u & (u - 1)))
        schedulePoint();
    if (++T[me].spin > 2000) {  // spinning: let the others run
        T[me].spin = 0;
        int o[MAXT];
        int k = others(o);
        if (k)
            resume(o[(++T[me].spin) % k]);
    }
    inside--;
    access(a, n, write, true, pc);
    inside++;
    Sync& s = syncOf(a);
    if (load && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
        acquire(s);
    if (write && mo != __ATOMIC_RELAXED && mo != __ATOMIC_ACQUIRE && mo != __ATOMIC_CONSUME)
        release(s);
}
// shared_ptr counts down with acq_rel
#define AT(bits, T_)                                                                                                  \
    T_ __tsan_atomic##bits##_load(const volatile T_* p, int mo) {                                                     \
        atomicOp(p, sizeof(T_), false, mo, true, PC);                                                                 \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                                 \
    void __tsan_atomic##bits##_store(volatile T_* p, T_ v, int mo) {                                                  \
        atomicOp(p, sizeof(T_), true, mo, false, PC);                                                                 \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                     \
    }                                                                                                                 \
    T_ __tsan_atomic##bits##_exchange(volatile T_* p, T_ v, int mo) {                                                 \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                                 \
    T_ __tsan_atomic##bits##_fetch_add(volatile T_* p, T_ v, int mo) {                                                \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T_ __tsan_atomic##bits##_fetch_sub(volatile T_* p, T_ v, int mo) {                                                \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T_ __tsan_atomic##bits##_fetch_and(volatile T_* p, T_ v, int mo) {                                                \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T_ __tsan_atomic##bits##_fetch_or(volatile T_* p, T_ v, int mo) {                                                 \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                 \
    T_ __tsan_atomic##bits##_fetch_xor(volatile T_* p, T_ v, int mo) {                                                \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                 \
    T_ __tsan_atomic##bits##_fetch_nand(volatile T_* p, T_ v, int mo) {                                               \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                                 \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T_* p, T_* e, T_ v, int mo, int) {                     \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
    }                                                                                                                 \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T_* p, T_* e, T_ v, int mo, int) {                       \
        atomicOp(p, sizeof(T_), true, mo, true, PC);                                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                       \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
    // treated as a full fence through one shared object
    if (!managed() || !concurrent)
        return;
    Guard g;
    static char fence;
    acquire(syncOf(&fence));
    release(syncOf(&fence));
}
void __tsan_atomic_signal_fence(int) {}

#endif  // SCHED_TRACK

}  // extern "C"
