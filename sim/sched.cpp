#include "sched.hpp"
#include <cstdio>
#include <cstring>
#include <cwchar>
#include <cstdarg>
#include <ctime>
#include <clocale>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace sim
{
// the part of the kernel's state that belongs to the running thread (sim.cpp)
struct Ctx
{
    int sut = 0;
    Oom oom = Oom::none;
    u64 k = 0, n = 0, fired = 0;
};
void ctx_get(Ctx&);
void ctx_set(const Ctx&);
extern int g_kernel; // >0: inside the kernel
bool in_sut();
void step(u64 n);

namespace sched
{
namespace
{
constexpr int MAXT = 8;
struct VC
{
    unsigned c[MAXT];
};
struct Th
{
    sem_t sem;
    int st = 0; // 0 unused, 1 runnable, 2 blocked, 3 done
    const void* wait = nullptr;
    u64 budget = 0;
    VC vc{};
    Ctx ctx;
    char *lo = nullptr, *hi = nullptr;
    pthread_t h{};
    struct
    {
        void (*f)(void*);
        void* o;
    } tls[64]; // destructors of thread-local objects
    int ntls = 0;
};
Th g_th[MAXT]; // 0 is the main thread
int g_cur = 0, g_n = 0;
bool g_active = false;
u64 g_seq = 0, g_preempt = 0, g_since = 0;
const std::function<void(int)>* g_body = nullptr;

struct K
{
    K() { ++g_kernel; }
    ~K() { --g_kernel; }
};

// ---- synchronisation variables
struct Sync
{
    const void* key = nullptr;
    VC vc{};
    int owner = -1, depth = 0;
};
constexpr unsigned NSYNC = 8192;
Sync g_sync[NSYNC];
Sync& sync_of(const void* p)
{
    u64 x = (u64)p * 0x9e3779b97f4a7c15ull;
    unsigned i = (unsigned)(x >> 40) & (NSYNC - 1);
    for(unsigned k = 0; k < NSYNC; ++k, i = (i + 1) & (NSYNC - 1))
    {
        if(g_sync[i].key == p) return g_sync[i];
        if(!g_sync[i].key)
        {
            g_sync[i].key = p;
            g_sync[i].owner = -1;
            return g_sync[i];
        }
    }
    die("internal", "too many synchronisation objects");
}
void join(VC& a, const VC& b)
{
    for(int i = 0; i < MAXT; ++i)
        if(b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
void acq(Sync& s) { join(g_th[g_cur].vc, s.vc); }
void rel(Sync& s)
{
    join(s.vc, g_th[g_cur].vc);
    ++g_th[g_cur].vc.c[g_cur];
}

// ---- shadow memory
struct Rec
{
    unsigned clk, pc;
    unsigned char tid, mask, fl; // fl: 1 write, 2 atomic, 4 in use
};
struct Cell
{
    u64 key;
    Rec r[6];
};
constexpr unsigned NCELL = 1 << 17;
Cell g_cell[NCELL];
unsigned g_cells = 0;
unsigned g_used[NCELL / 2];
Cell* cell(u64 key, bool make)
{
    u64 x = key * 0x9e3779b97f4a7c15ull;
    unsigned i = (unsigned)(x >> 32) & (NCELL - 1);
    while(g_cell[i].key)
    {
        if(g_cell[i].key == key) return &g_cell[i];
        i = (i + 1) & (NCELL - 1);
    }
    if(!make || g_cells >= NCELL / 2) return nullptr;
    g_used[g_cells++] = i;
    g_cell[i].key = key;
    return &g_cell[i];
}
void reset_shadow()
{
    for(unsigned k = 0; k < g_cells; ++k) std::memset(&g_cell[g_used[k]], 0, sizeof(Cell));
    g_cells = 0;
    std::memset((void*)g_sync, 0, sizeof g_sync);
    for(auto& s : g_sync) s.owner = -1;
}
void touch_cell(u64 key, unsigned mask, unsigned fl, unsigned pc)
{
    Cell* c = cell(key, true);
    if(!c) return;
    Th& me = g_th[g_cur];
    Rec* slot = nullptr;
    for(auto& r : c->r)
    {
        if(!(r.fl & 4))
        {
            if(!slot) slot = &r;
            continue;
        }
        if(r.tid == g_cur)
        {
            if(r.mask == mask && (r.fl & 3) == fl) slot = &r;
            else if((fl & 1) && (r.mask & ~mask) == 0 && !(fl & 2)) r.fl = 0, slot = slot ? slot : &r;
            continue;
        }
        if(!(r.mask & mask) || !((r.fl | fl) & 1) || ((r.fl & 2) && (fl & 2))) continue;
        if(r.clk > me.vc.c[r.tid])
        {
            static const char* const kind[] = {"read", "write", "atomic read", "atomic write"};
            flag("data-race", "unsynchronised %s at pc=0x%x in thread %d and %s at pc=0x%x in thread %d", kind[r.fl & 3], r.pc, r.tid - 1, kind[fl & 3], pc, g_cur - 1);
        }
    }
    if(!slot) slot = &c->r[(key ^ me.vc.c[g_cur] ^ g_seq) % 6];
    *slot = {me.vc.c[g_cur], pc, (unsigned char)g_cur, (unsigned char)mask, (unsigned char)(fl | 4)};
}
void touch(const void* p, std::size_t n, unsigned fl, unsigned pc)
{
    u64 a = (u64)p, e = a + n;
    while(a < e)
    {
        unsigned o = a & 7, k = 8 - o;
        if(k > e - a) k = (unsigned)(e - a);
        touch_cell((a >> 3) | (1ull << 62), ((1u << k) - 1) << o, fl, pc);
        a += k;
    }
}
void clear(const void* p, std::size_t n)
{
    if(!g_cells) return;
    u64 a = (u64)p & ~7ull, e = (u64)p + n;
    for(; a < e; a += 8)
        if(Cell* c = cell((a >> 3) | (1ull << 62), false)) std::memset(c->r, 0, sizeof c->r);
}

// ---- scheduling
u64 new_budget()
{
    static const u64 scale[] = {0, 8, 64, 512, 4096, 32768};
    u64 k = draw(6);
    return k ? 1 + draw(scale[k]) : 0; // 0: until it blocks or ends
}
int runnable(int* out, int except)
{
    int n = 0;
    for(int i = 1; i <= g_n; ++i)
        if(g_th[i].st == 1 && i != except) out[n++] = i;
    return n;
}
void go(int t) // give the baton to t and wait for it to come back
{
    Th& me = g_th[g_cur];
    int old = g_cur;
    ctx_get(me.ctx);
    int k = g_kernel;
    g_kernel = 0;
    g_cur = t;
    g_since = 0;
    if(t) ctx_set(g_th[t].ctx);
    sem_post(&g_th[t].sem);
    while(sem_wait(&me.sem)) {}
    g_cur = old;
    ctx_set(me.ctx);
    g_kernel = k;
}
void switch_to(int t, const char* why)
{
    ++g_seq;
    ev("    [%d -> %d] %s", g_cur - 1, t - 1, why);
    mix((u64)g_cur * 8 + t);
    go(t);
}
// the running thread may go on, another may run instead
void maybe(const char* why, bool forced)
{
    K k;
    int o[MAXT], n = runnable(o, g_cur);
    g_th[g_cur].budget = new_budget();
    if(!n) return;
    u64 c = forced ? draw(n) : draw(2 * n);
    if(!forced)
    {
        if(c < (u64)n) return;
        c -= n;
    }
    ++g_preempt;
    nontrivial();
    switch_to(o[c], why);
}
void block(const void* on, const char* why)
{
    K k;
    Th& me = g_th[g_cur];
    me.st = 2;
    me.wait = on;
    int o[MAXT], n = runnable(o, g_cur);
    if(!n) die("deadlock", "every thread waits for a lock");
    probe("thread-blocked");
    switch_to(o[draw(n)], why);
}
void wake(const void* on)
{
    for(int i = 1; i <= g_n; ++i)
        if(g_th[i].st == 2 && g_th[i].wait == on) g_th[i].st = 1;
}
bool on() { return g_active && g_cur > 0; }

void access(const void* p, std::size_t n, unsigned fl, void* pc)
{
    if(!on() || g_kernel || !in_sut() || !n) return;
    K k;
    step(1);
    Th& me = g_th[g_cur];
    if((char*)p >= me.lo && (char*)p < me.hi) return; // its own stack
    ++g_since;
    if(me.budget && !--me.budget) maybe("preempted", true);
    else if(g_since > 50000)
    { // nobody may spin for ever
        g_since = 0;
        int o[MAXT], c = runnable(o, g_cur);
        if(c) switch_to(o[0], "ran long");
    }
    touch(p, n, fl, (unsigned)(u64)pc);
}

void lock(const void* p, const char* what, bool recursive)
{
    Sync& s = sync_of(p);
    maybe(what, false);
    while(s.owner > 0 && s.owner != g_cur) block(p, what);
    if(s.owner == g_cur && !recursive) die("deadlock", "a thread locks a mutex it holds");
    s.owner = g_cur;
    ++s.depth;
    acq(s);
}
void unlock(const void* p, const char* what)
{
    Sync& s = sync_of(p);
    if(s.owner != g_cur) return; // not taken under the scheduler
    rel(s);
    if(--s.depth == 0)
    {
        s.owner = -1;
        wake(p);
        maybe(what, false);
    }
}
bool trylock(const void* p)
{
    Sync& s = sync_of(p);
    maybe("trylock", false);
    if(s.owner > 0 && s.owner != g_cur) return false;
    s.owner = g_cur;
    ++s.depth;
    acq(s);
    return true;
}
void finish()
{
    ++g_kernel; // the next thread starts with its own count
    Th& me = g_th[g_cur];
    me.st = 3;
    ++g_seq;
    int o[MAXT], n = runnable(o, g_cur);
    if(!n)
    {
        for(int i = 1; i <= g_n; ++i)
            if(g_th[i].st == 2) die("deadlock", "a thread waits for a lock nobody will release");
    }
    int t = n ? o[draw(n)] : 0;
    ev("    [%d ends -> %d]", g_cur - 1, t - 1);
    g_kernel = 0;
    g_cur = t;
    g_since = 0;
    if(t) ctx_set(g_th[t].ctx);
    sem_post(&g_th[t].sem);
}
void* thread_main(void* a)
{
    int id = (int)(long)a;
    Th& me = g_th[id];
    pthread_attr_t at;
    pthread_getattr_np(pthread_self(), &at);
    void* lo;
    std::size_t sz;
    pthread_attr_getstack(&at, &lo, &sz);
    pthread_attr_destroy(&at);
    me.lo = (char*)lo;
    me.hi = me.lo + sz;
    while(sem_wait(&me.sem)) {}
    try
    {
        (*g_body)(id - 1);
    }
    catch(const Violation& v)
    {
        flag(v.cls.c_str(), "%s", v.msg.c_str());
    }
    catch(const std::exception& e)
    {
        flag("unexpected-exception", "exception escaped from a thread: %s", e.what());
    }
    while(me.ntls)
    {
        auto d = me.tls[--me.ntls];
        d.f(d.o);
    }
    finish();
    return nullptr;
}
} // namespace

void run(int n, const std::function<void(int)>& body)
{
    if(n >= MAXT) die("internal", "too many threads");
    g_body = &body;
    reset_shadow();
    g_seq = g_preempt = g_since = 0;
    g_n = n;
    g_cur = 0;
    VC start{};
    for(int i = 0; i <= n; ++i)
    {
        Th& t = g_th[i];
        sem_init(&t.sem, 0, 0);
        t.st = i ? 1 : 0;
        t.vc = VC{};
        t.vc.c[i] = 1;
        t.ctx = Ctx{};
        t.ntls = 0;
        t.budget = i ? new_budget() : 0;
    }
    g_th[0].vc.c[0] = 2;
    for(int i = 1; i <= n; ++i)
    {
        g_th[i].vc.c[0] = 1;
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 1 << 20);
        if(pthread_create(&g_th[i].h, &at, thread_main, (void*)(long)i)) die("internal", "cannot create a thread");
        pthread_attr_destroy(&at);
    }
    int first = 1 + (int)draw(n);
    ev("    [start -> %d]", first - 1);
    g_active = true;
    go(first);
    g_active = false;
    for(int i = 1; i <= n; ++i)
    {
        pthread_join(g_th[i].h, nullptr);
        g_th[i].st = 0;
    }
}
void point(const char* what)
{
    if(!on()) return;
    maybe(what, false);
}
int self() { return g_cur - 1; }
u64 clock() { return ++g_seq; }
u64 preemptions() { return g_preempt; }

void tables(const void** lo, const void** hi)
{
    lo[0] = g_sync;
    hi[0] = g_sync + NSYNC;
    lo[1] = g_cell;
    hi[1] = g_cell + NCELL;
}
void on_new(const void* p, std::size_t n)
{
    if(g_active) clear(p, n);
}
void on_delete(const void* p, std::size_t n)
{
    if(on() && in_sut()) touch(p, n, 1, 0);
}
} // namespace sched
} // namespace sim

using namespace sim;
using namespace sim::sched;
#define PC __builtin_return_address(0)

extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, 0, PC); } \
    void __tsan_write##n(void* p) { access(p, n, 1, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, 0, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, 1, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, 0, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, 1, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access(p, 8, 1, PC); }

// ---- atomics
static void before(const volatile void* p, std::size_t n, unsigned fl, void* pc) { access((const void*)p, n, fl | 2, pc); }
static void order(const volatile void* p, int mo, bool load, bool store)
{
    if(!on() || sim::g_kernel) return;
    sim::sched::K k;
    Sync& s = sync_of((const void*)p);
    bool a = mo == 1 || mo == 2 || mo == 4 || mo == 5, r = mo == 3 || mo == 4 || mo == 5;
    if(load && a) acq(s);
    if(store && r) rel(s);
    else if(store && !load) s.vc = VC{}; // a relaxed store ends the release sequence
}
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) { before(p, sizeof(T), 0, PC); T v = __atomic_load_n(p, 5); order(p, mo, true, false); return v; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, false, true); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, true, true); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, true, true); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, true, true); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, true, true); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, true, true); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, true, true); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { before(p, sizeof(T), 1, PC); order(p, mo, true, true); return __atomic_fetch_nand(p, v, 5); } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) \
    { \
        before(p, sizeof(T), 1, PC); \
        bool r = __atomic_compare_exchange_n(p, e, v, false, 5, 5); \
        order(p, r ? mo : fmo, true, r); \
        return r; \
    } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) \
    { \
        before(p, sizeof(T), 1, PC); \
        bool r = __atomic_compare_exchange_n(p, e, v, false, 5, 5); \
        order(p, r ? mo : fmo, true, r); \
        return r; \
    } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) \
    { \
        before(p, sizeof(T), 1, PC); \
        bool r = __atomic_compare_exchange_n(p, &e, v, false, 5, 5); \
        order(p, r ? mo : fmo, true, r); \
        return e; \
    }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int)
{
    if(!on() || sim::g_kernel) return;
    static char fence;
    Sync& s = sync_of(&fence);
    acq(s);
    rel(s);
}
void __tsan_atomic_signal_fence(int) {}

// ---- locks
#define REAL(r, n, ...) extern r __real_##n(__VA_ARGS__)
#define MINE() (on() && !sim::g_kernel)
REAL(int, pthread_mutex_lock, pthread_mutex_t*);
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if(MINE()) lock(m, "mutex", (m->__data.__kind & 3) == 1);
    return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    if(MINE()) unlock(m, "mutex released");
    return r;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if(MINE() && !trylock(m)) return 16; // EBUSY
    return __real_pthread_mutex_trylock(m);
}
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if(MINE()) lock(m, "rwlock", true);
    return __real_pthread_rwlock_rdlock(m);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if(MINE()) lock(m, "rwlock", false);
    return __real_pthread_rwlock_wrlock(m);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    int r = __real_pthread_rwlock_unlock(m);
    if(MINE()) unlock(m, "rwlock released");
    return r;
}
REAL(int, pthread_once, pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    if(!MINE()) return __real_pthread_once(o, f);
    struct Held
    {
        void* o;
        ~Held() { unlock(o, "once done"); }
    } held{o};
    lock(o, "once", false);
    return __real_pthread_once(o, f);
}
REAL(int, sched_yield, );
int __wrap_sched_yield()
{
    if(MINE()) maybe("yield", true);
    return 0;
}
REAL(int, __cxa_guard_acquire, long*);
REAL(void, __cxa_guard_release, long*);
REAL(void, __cxa_guard_abort, long*);
int __wrap___cxa_guard_acquire(long* g)
{
    if(!MINE()) return __real___cxa_guard_acquire(g);
    lock(g, "static", false);
    if(*(volatile char*)g)
    {
        unlock(g, "static ready");
        return 0;
    }
    return 1;
}
void __wrap___cxa_guard_release(long* g)
{
    if(!MINE() || sync_of(g).owner != g_cur) return __real___cxa_guard_release(g);
    *(volatile char*)g = 1;
    unlock(g, "static done");
}
void __wrap___cxa_guard_abort(long* g)
{
    if(!MINE() || sync_of(g).owner != g_cur) return __real___cxa_guard_abort(g);
    unlock(g, "static aborted");
}
// thread-local objects are destroyed while the thread is still part of the schedule
REAL(int, __cxa_thread_atexit, void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* dso)
{
    if(!on() || !g_cur) return __real___cxa_thread_atexit(f, o, dso);
    Th& me = g_th[g_cur];
    if(me.ntls >= 64) die("internal", "too many thread-local objects");
    me.tls[me.ntls].f = f;
    me.tls[me.ntls++].o = o;
    return 0;
}
REAL(void*, __cxa_allocate_exception, unsigned long);
void* __wrap___cxa_allocate_exception(unsigned long n)
{
    void* p = __real___cxa_allocate_exception(n);
    on_new(p, n);
    return p;
}

// ---- memory functions: the accesses of the code under test they make
REAL(void*, memcpy, void*, const void*, size_t);
REAL(void*, memmove, void*, const void*, size_t);
REAL(void*, memset, void*, int, size_t);
REAL(int, memcmp, const void*, const void*, size_t);
REAL(void*, memchr, const void*, int, size_t);
REAL(size_t, strlen, const char*);
REAL(wchar_t*, wmemcpy, wchar_t*, const wchar_t*, size_t);
REAL(wchar_t*, wmemmove, wchar_t*, const wchar_t*, size_t);
REAL(wchar_t*, wmemset, wchar_t*, wchar_t, size_t);
REAL(int, wmemcmp, const wchar_t*, const wchar_t*, size_t);
REAL(wchar_t*, wmemchr, const wchar_t*, wchar_t, size_t);
REAL(size_t, wcslen, const wchar_t*);
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, 0, PC);
    access(d, n, 1, PC);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    access(s, n, 0, PC);
    access(d, n, 1, PC);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    access(d, n, 1, PC);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    access(a, n, 0, PC);
    access(b, n, 0, PC);
    return __real_memcmp(a, b, n);
}
void* __wrap_memchr(const void* a, int c, size_t n)
{
    access(a, n, 0, PC);
    return __real_memchr(a, c, n);
}
size_t __wrap_strlen(const char* a)
{
    size_t n = __real_strlen(a);
    access(a, n + 1, 0, PC);
    return n;
}
wchar_t* __wrap_wmemcpy(wchar_t* d, const wchar_t* s, size_t n)
{
    access(s, n * 4, 0, PC);
    access(d, n * 4, 1, PC);
    return __real_wmemcpy(d, s, n);
}
wchar_t* __wrap_wmemmove(wchar_t* d, const wchar_t* s, size_t n)
{
    access(s, n * 4, 0, PC);
    access(d, n * 4, 1, PC);
    return __real_wmemmove(d, s, n);
}
wchar_t* __wrap_wmemset(wchar_t* d, wchar_t c, size_t n)
{
    access(d, n * 4, 1, PC);
    return __real_wmemset(d, c, n);
}
int __wrap_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n)
{
    access(a, n * 4, 0, PC);
    access(b, n * 4, 0, PC);
    return __real_wmemcmp(a, b, n);
}
wchar_t* __wrap_wmemchr(const wchar_t* a, wchar_t c, size_t n)
{
    access(a, n * 4, 0, PC);
    return __real_wmemchr(a, c, n);
}
size_t __wrap_wcslen(const wchar_t* a)
{
    size_t n = __real_wcslen(a);
    access(a, n * 4 + 4, 0, PC);
    return n;
}

// ---- conversions of the C and C++ libraries
struct ToChars
{
    char* ptr;
    int ec;
};
#define TO_CHARS(sym, ...) TO_CHARS_(sym, __VA_ARGS__)
#define TO_CHARS_(sym, params, args) \
    extern ToChars __real_##sym params; \
    ToChars __wrap_##sym params \
    { \
        ToChars r = __real_##sym args; \
        access(b, (u64)(r.ptr - b), 1, PC); \
        return r; \
    }
TO_CHARS(_ZSt8to_charsPcS_f, (char* b, char* e, float v), (b, e, v))
TO_CHARS(_ZSt8to_charsPcS_d, (char* b, char* e, double v), (b, e, v))
TO_CHARS(_ZSt8to_charsPcS_e, (char* b, char* e, long double v), (b, e, v))
TO_CHARS(_ZSt8to_charsPcS_fSt12chars_format, (char* b, char* e, float v, int f), (b, e, v, f))
TO_CHARS(_ZSt8to_charsPcS_dSt12chars_format, (char* b, char* e, double v, int f), (b, e, v, f))
TO_CHARS(_ZSt8to_charsPcS_eSt12chars_format, (char* b, char* e, long double v, int f), (b, e, v, f))
TO_CHARS(_ZSt8to_charsPcS_fSt12chars_formati, (char* b, char* e, float v, int f, int p), (b, e, v, f, p))
TO_CHARS(_ZSt8to_charsPcS_dSt12chars_formati, (char* b, char* e, double v, int f, int p), (b, e, v, f, p))
TO_CHARS(_ZSt8to_charsPcS_eSt12chars_formati, (char* b, char* e, long double v, int f, int p), (b, e, v, f, p))
#define FROM_CHARS(sym, T) \
    extern ToChars __real_##sym(const char* b, const char* e, T* v, int f); \
    ToChars __wrap_##sym(const char* b, const char* e, T* v, int f) \
    { \
        access(b, (u64)(e - b), 0, PC); \
        ToChars r = __real_##sym(b, e, v, f); \
        access(v, sizeof(T), 1, PC); \
        return r; \
    }
FROM_CHARS(_ZSt10from_charsPKcS0_RfSt12chars_format, float)
FROM_CHARS(_ZSt10from_charsPKcS0_RdSt12chars_format, double)
FROM_CHARS(_ZSt10from_charsPKcS0_ReSt12chars_format, long double)
REAL(int, vsnprintf, char*, size_t, const char*, va_list);
int __wrap_vsnprintf(char* d, size_t n, const char* f, va_list a)
{
    int r = __real_vsnprintf(d, n, f, a);
    if(n && r >= 0) access(d, (u64)r < n ? r + 1 : n, 1, PC);
    return r;
}
int __wrap_snprintf(char* d, size_t n, const char* f, ...)
{
    va_list a;
    va_start(a, f);
    int r = __wrap_vsnprintf(d, n, f, a);
    va_end(a);
    return r;
}
int __wrap_sprintf(char* d, const char* f, ...)
{
    va_list a;
    va_start(a, f);
    int r = vsprintf(d, f, a);
    va_end(a);
    if(r >= 0) access(d, r + 1, 1, PC);
    return r;
}
REAL(size_t, strftime, char*, size_t, const char*, const struct tm*);
size_t __wrap_strftime(char* d, size_t n, const char* f, const struct tm* t)
{
    access(t, sizeof *t, 0, PC);
    size_t r = __real_strftime(d, n, f, t);
    if(r) access(d, r + 1, 1, PC);
    return r;
}
static struct tm* broken_down(const time_t* t, struct tm* r, void* pc) // one object for all threads
{
    access(t, sizeof *t, 0, pc);
    if(r) access(r, sizeof *r, 1, pc);
    return r;
}
REAL(struct tm*, localtime, const time_t*);
struct tm* __wrap_localtime(const time_t* t) { return broken_down(t, __real_localtime(t), PC); }
REAL(struct tm*, gmtime, const time_t*);
struct tm* __wrap_gmtime(const time_t* t) { return broken_down(t, __real_gmtime(t), PC); }
REAL(char*, asctime, const struct tm*);
char* __wrap_asctime(const struct tm* t)
{
    access(t, sizeof *t, 0, PC);
    char* r = __real_asctime(t);
    if(r) access(r, 26, 1, PC);
    return r;
}
REAL(char*, setlocale, int, const char*);
char* __wrap_setlocale(int c, const char* l)
{
    char* r = __real_setlocale(c, l);
    static long all; // the locale of the whole process
    access(&all, 8, l != nullptr, PC);
    return r;
}

// ---- stdio: every call holds the lock of its stream
struct FileLock
{
    FILE* f;
    bool mine;
    FileLock(FILE* f) : f(f), mine(MINE() && f)
    {
        if(mine) lock(f, "stream", true);
    }
    ~FileLock()
    {
        if(mine) unlock(f, "stream released");
    }
};
static void unlocked(FILE* f, void* pc)
{
    if(!MINE()) return;
    Sync& s = sync_of(f);
    if(s.owner > 0 && s.owner != g_cur) flag("data-race", "stdio call without the lock of the stream at pc=0x%x while thread %d holds it", (unsigned)(u64)pc, s.owner - 1);
    sim::sched::K k;
    touch(f, 8, 1, (unsigned)(u64)pc);
}
void __wrap_flockfile(FILE* f)
{
    if(MINE()) lock(f, "stream", true);
}
void __wrap_funlockfile(FILE* f)
{
    if(MINE()) unlock(f, "stream released");
}
int __wrap_ftrylockfile(FILE* f) { return MINE() ? !trylock(f) : 0; }
#define IO(r, n, params, args, fp) \
    extern r __real_##n params; \
    r __wrap_##n params \
    { \
        FileLock l(fp); \
        unlocked(fp, PC); \
        return __real_##n args; \
    }
#define IOU(r, n, params, args, fp) \
    extern r __real_##n params; \
    r __wrap_##n params \
    { \
        unlocked(fp, PC); \
        if(flagged()) return (r)0; \
        return __real_##n args; \
    }
IO(size_t, fwrite, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f), f)
IO(int, fputs, (const char* s, FILE* f), (s, f), f)
IO(int, fputc, (int c, FILE* f), (c, f), f)
IO(int, putc, (int c, FILE* f), (c, f), f)
IO(int, putchar, (int c), (c), stdout)
IO(int, puts, (const char* s), (s), stdout)
IO(int, fputws, (const wchar_t* s, FILE* f), (s, f), f)
IO(wint_t, fputwc, (wchar_t c, FILE* f), (c, f), f)
IO(int, ferror, (FILE* f), (f), f)
IO(int, feof, (FILE* f), (f), f)
IO(void, clearerr, (FILE* f), (f), f)
IO(int, vfprintf, (FILE* f, const char* s, va_list a), (f, s, a), f)
IO(int, setvbuf, (FILE* f, char* b, int m, size_t n), (f, b, m, n), f)
IO(int, fileno, (FILE* f), (f), f)
IO(int, fwide, (FILE* f, int m), (f, m), f)
IOU(size_t, fwrite_unlocked, (const void* p, size_t a, size_t b, FILE* f), (p, a, b, f), f)
IOU(int, fputs_unlocked, (const char* s, FILE* f), (s, f), f)
IOU(int, fputc_unlocked, (int c, FILE* f), (c, f), f)
IOU(int, putc_unlocked, (int c, FILE* f), (c, f), f)
IOU(int, fflush_unlocked, (FILE* f), (f), f)
IOU(int, ferror_unlocked, (FILE* f), (f), f)
extern int __real_fflush(FILE*);
int __wrap_fflush(FILE* f)
{
    if(!f) return __real_fflush(f);
    FileLock l(f);
    unlocked(f, PC);
    return __real_fflush(f);
}
int __wrap_fprintf(FILE* f, const char* s, ...)
{
    va_list a;
    va_start(a, s);
    int r = __wrap_vfprintf(f, s, a);
    va_end(a);
    return r;
}

// memory that changes hands through malloc carries no history
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
static void* taken(void* p, size_t n)
{
    if(p && g_active) clear(p, n);
    return p;
}
void* malloc(size_t n) { return taken(__libc_malloc(n), n); }
void* calloc(size_t a, size_t b) { return taken(__libc_calloc(a, b), a * b); }
void* realloc(void* p, size_t n) { return taken(__libc_realloc(p, n), n); }
}
