#include "sim.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

namespace sim
{
int g_kernel = 0; // >0: inside the kernel: the scheduler looks away
#ifdef SIM_SCHED
namespace sched
{
void tables(const void** lo, const void** hi);
void on_new(const void* p, std::size_t n);
void on_delete(const void* p, std::size_t n);
}
#endif
namespace
{
struct Kern
{
    Kern() { ++g_kernel; }
    ~Kern() { --g_kernel; }
};
constexpr int MAXW = 64;
constexpr std::size_t LOGCAP = 1 << 17;
constexpr std::size_t MAXCHOICE = 1 << 16;
constexpr int MAXCNT = 192;
constexpr int MAXSTATE = 4096;

struct Counter
{
    char name[56];
    u64 n;
};

struct Slot // one per worker, shared memory
{
    volatile u64 run_idx;    // run being executed (or ~0)
    volatile u64 heartbeat;
    volatile int state;      // 0 idle 1 running 2 violation 3 done 4 nondeterminism
    u64 runs, nontriv, steps, allocs, oomfired, max_steps;
    u64 det_pairs;
    u64 distinct, distinct_nontriv, states, edges;
    u64 hash;
    u64 nchoices;
    u64 nops;
    u64 loglen;
    char cls[256];
    char msg[2048];
    Counter faults[MAXCNT];
    Counter probes[MAXCNT];
    u64 choices[MAXCHOICE];
    unsigned ops[MAXCHOICE / 4];
    char log[LOGCAP];
    // filled by an isolated run
    u64 run_steps, run_allocs, run_oom, nstate;
    bool run_nontriv;
    u64 statebuf[MAXSTATE];
};

Slot* g_slot = nullptr;

// ---- per-run state
struct Rng
{
    u64 s[4];
    static u64 sm(u64& x)
    {
        u64 z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void seed(u64 x)
    {
        for(auto& v : s) v = sm(x);
    }
    static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    u64 next()
    {
        const u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rotl(s[3], 45);
        return r;
    }
};

Rng g_rng;
bool g_replay = false;
const u64* g_in = nullptr;
u64 g_in_n = 0;
u64 g_pos = 0;
u64 g_hash = 0;
bool g_nontriv = false;
bool g_flagged = false;
bool g_running = false;
bool g_quiet = false; // probes/faults are not counted (duplicate runs)
u64 g_steps = 0;
u64 g_alloc_n = 0;
std::unordered_set<u64>* g_states = nullptr;

int g_sut = 0; // >0: code under test is running
Oom g_oom = Oom::none;
u64 g_oom_k = 0, g_oom_n = 0, g_oom_fired = 0;
u64 g_oom_fired_run = 0;

// edge coverage
constexpr u64 EDGEBITS = 1 << 18;
unsigned char g_edges_own[EDGEBITS];
unsigned char* g_edges = g_edges_own;
bool g_isolate = false; // every run in a process of its own

void mixv(u64 v)
{
    g_hash ^= v + 0x9e3779b97f4a7c15ull + (g_hash << 6) + (g_hash >> 2);
    g_hash *= 0xff51afd7ed558ccdull;
    g_hash ^= g_hash >> 32;
}

void bump(Counter* t, const char* name)
{
    if(g_quiet || !g_slot) return;
    for(int i = 0; i < MAXCNT; ++i)
    {
        if(!t[i].name[0]) std::snprintf(t[i].name, sizeof t[i].name, "%s", name);
        if(!std::strncmp(t[i].name, name, sizeof t[i].name - 1))
        {
            ++t[i].n;
            return;
        }
    }
}

void log_raw(const char* s, std::size_t n)
{
    Slot* p = g_slot;
    if(!p) return;
    if(p->loglen + n + 1 < LOGCAP)
    {
        std::memcpy(p->log + p->loglen, s, n);
        p->loglen += n;
        p->log[p->loglen] = 0;
    }
    for(std::size_t i = 0; i < n; ++i) mixv((unsigned char)s[i]);
    p->hash = g_hash;
}

// ---- tracked blocks: open addressing, malloc-backed, never uses new
struct Blk
{
    void* p;
    std::size_t n;
    u64 seq;
    int kind;
};
constexpr std::size_t TAB = 1 << 16;
Blk g_tab[TAB];
u64 g_live = 0, g_live_bytes = 0;
bool g_keep = false;

std::size_t hidx(void* p)
{
    u64 x = (u64)p;
    x ^= x >> 33;
    x *= 0xff51afd7ed558ccdull;
    x ^= x >> 29;
    return x & (TAB - 1);
}
void tab_add(void* p, std::size_t n, int kind)
{
    if(g_live > TAB / 2 || g_live_bytes + n > (u64(1) << 28)) die("runaway-memory", "code under test holds too much memory");
    std::size_t i = hidx(p);
    while(g_tab[i].p) i = (i + 1) & (TAB - 1);
    g_tab[i] = {p, n, g_alloc_n, kind};
    ++g_live;
    g_live_bytes += n;
}
// blocks a static or thread-local object of the code under test still refers to are kept, not leaked
#define NOASAN __attribute__((no_sanitize("address"), noinline))
struct Range
{
    const char *lo, *hi;
};
int find_data(dl_phdr_info* i, std::size_t, void* a)
{
    auto* r = (Range*)a; // the program itself comes first
    for(int k = 0; k < i->dlpi_phnum; ++k)
    {
        auto& h = i->dlpi_phdr[k];
        if(h.p_type == PT_LOAD && (h.p_flags & PF_W)) r[0] = {(const char*)(i->dlpi_addr + h.p_vaddr), (const char*)(i->dlpi_addr + h.p_vaddr + h.p_memsz)};
        if(h.p_type == PT_TLS && i->dlpi_tls_data) r[1] = {(const char*)i->dlpi_tls_data, (const char*)i->dlpi_tls_data + h.p_memsz};
    }
    return 1;
}
NOASAN void reach(const char* lo, const char* hi, const Range* skip, int nskip, const std::vector<Blk>& b, std::vector<char>& seen, std::vector<std::size_t>& todo)
{
    lo = (const char*)(((u64)lo + 7) & ~u64(7));
    for(; lo + 8 <= hi; lo += 8)
    {
        for(int k = 0; k < nskip; ++k)
            if(lo >= skip[k].lo && lo < skip[k].hi) lo = (const char*)(((u64)skip[k].hi + 7) & ~u64(7));
        if(lo + 8 > hi) break;
        char* v = *(char* const*)lo;
        auto it = std::upper_bound(b.begin(), b.end(), v, [](char* x, const Blk& y) { return x < (char*)y.p; });
        if(it == b.begin()) continue;
        --it;
        if(v >= (char*)it->p + (it->n ? it->n : 1)) continue;
        std::size_t i = it - b.begin();
        if(seen[i]) continue;
        seen[i] = 1;
        todo.push_back(i);
    }
}
void tab_del(void* p, int kind);
void drop_retained()
{
    int sv = g_sut;
    g_sut = 0;
    {
        std::vector<Blk> b;
        for(auto& x : g_tab)
            if(x.p) b.push_back(x);
        std::sort(b.begin(), b.end(), [](const Blk& x, const Blk& y) { return (char*)x.p < (char*)y.p; });
        std::vector<char> seen(b.size(), 0);
        std::vector<std::size_t> todo;
        Range r[2] = {}, skip[4];
        int ns = 0;
        dl_iterate_phdr(find_data, r);
        skip[ns++] = {(char*)g_tab, (char*)(g_tab + TAB)};
#ifdef SIM_SCHED
        const void *lo[2], *hi[2];
        sched::tables(lo, hi);
        for(int k = 0; k < 2; ++k) skip[ns++] = {(const char*)lo[k], (const char*)hi[k]};
#endif
        for(auto& x : r)
            if(x.lo) reach(x.lo, x.hi, skip, ns, b, seen, todo);
        while(!todo.empty())
        {
            auto i = todo.back();
            todo.pop_back();
            reach((char*)b[i].p, (char*)b[i].p + b[i].n, nullptr, 0, b, seen, todo);
        }
        g_keep = true;
        for(std::size_t i = 0; i < b.size(); ++i)
            if(seen[i]) tab_del(b[i].p, -1);
        g_keep = false;
    }
    g_sut = sv;
}
void tab_del(void* p, int kind)
{
    if(!g_live) return;
    std::size_t i = hidx(p);
    while(g_tab[i].p && g_tab[i].p != p) i = (i + 1) & (TAB - 1);
    if(!g_tab[i].p) return;
#ifdef SIM_SCHED
    if(!g_keep) sched::on_delete(p, g_tab[i].n);
#endif
    if(kind >= 0 && g_tab[i].kind != kind) die("alloc-dealloc-mismatch", "new/delete form mismatch on a block of the code under test");
    --g_live;
    g_live_bytes -= g_tab[i].n;
    g_tab[i].p = nullptr;
    std::size_t j = i;
    for(;;)
    {
        j = (j + 1) & (TAB - 1);
        if(!g_tab[j].p) break;
        std::size_t k = hidx(g_tab[j].p);
        if((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
        g_tab[i] = g_tab[j];
        g_tab[j].p = nullptr;
        i = j;
    }
}

bool should_fail(std::size_t n)
{
    if(g_oom == Oom::none) return false;
    ++g_oom_n;
    bool f = false;
    switch(g_oom)
    {
    case Oom::once: f = g_oom_n == g_oom_k; break;
    case Oom::persistent: f = g_oom_n >= g_oom_k; break;
    case Oom::bigger: f = n > g_oom_k; break;
    default: break;
    }
    if(f)
    {
        ++g_oom_fired;
        ++g_oom_fired_run;
        g_nontriv = true;
        static const char* nm[] = {"", "alloc-fail-once", "alloc-fail-persistent", "alloc-fail-large"};
        bump(g_slot ? g_slot->faults : nullptr, nm[(int)g_oom]);
        char b[64];
        int l = std::snprintf(b, sizeof b, "  ! allocation %llu fails (%zu bytes)\n", (unsigned long long)g_oom_n, n);
        log_raw(b, l);
    }
    return f;
}

void* do_new(std::size_t n, std::size_t al, int kind, bool nothrow)
{
    Kern kern;
    if(g_sut > 0)
    {
        ++g_alloc_n;
        ++g_steps;
        if(n > (std::size_t(1) << 30))
        {
            if(nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if(should_fail(n))
        {
            if(nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    void* p = nullptr;
    if(al > 16)
    {
        if(posix_memalign(&p, al, n ? n : 1)) p = nullptr;
    }
    else
        p = std::malloc(n ? n : 1);
    if(!p)
    {
        if(nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if(g_sut > 0) tab_add(p, n, kind);
#ifdef SIM_SCHED
    sched::on_new(p, n);
#endif
    return p;
}
void do_del(void* p, int kind)
{
    if(!p) return;
    Kern kern;
    tab_del(p, kind);
    std::free(p);
}
} // namespace

u64 draw(u64 n)
{
    Kern kern;
    u64 v;
    if(g_replay)
        v = g_pos < g_in_n ? g_in[g_pos] : 0;
    else
        v = n > 1 ? g_rng.next() % n : 0;
    if(n == 0) n = 1;
    if(v >= n) v = n - 1;
    if(g_slot && g_pos < MAXCHOICE)
    {
        g_slot->choices[g_pos] = v;
        g_slot->nchoices = g_pos + 1;
    }
    ++g_pos;
    if(g_pos > MAXCHOICE - 8) die("internal", "too many choices in one run");
    return v;
}

u64 skewed(u64 max)
{
    u64 b = draw(4);
    u64 m = b == 0 ? 0 : b == 1 ? (max < 3 ? max : 3) : b == 2 ? (max < 20 ? max : 20) : max;
    return draw(m + 1);
}

void op_begin()
{
    if(g_slot && g_slot->nops < MAXCHOICE / 4) g_slot->ops[g_slot->nops++] = (unsigned)g_pos;
}

void ev(const char* fmt, ...)
{
    Kern kern;
    char b[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = std::vsnprintf(b, sizeof b - 2, fmt, ap);
    va_end(ap);
    if(n < 0) n = 0;
    if(n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    log_raw(b, n);
}
void mix(u64 v)
{
    Kern kern;
    mixv(v);
    if(g_slot) g_slot->hash = g_hash;
}
void mix_bytes(const void* p, std::size_t n)
{
    auto* c = (const unsigned char*)p;
    for(std::size_t i = 0; i < n; ++i) mixv(c[i]);
    mix(n);
}
void ev_bytes(const char* tag, const void* p, std::size_t n)
{
    int sv = g_sut;
    g_sut = 0;
    {
        std::string s((const char*)p, n < 48 ? n : 48);
        ev("%s n=%zu %s", tag, n, esc(s).c_str());
        mix_bytes(p, n);
    }
    g_sut = sv;
}
void nontrivial() { g_nontriv = true; }
void probe(const char* name)
{
    Kern kern;
    if(g_slot) bump(g_slot->probes, name);
}
void fault(const char* kind)
{
    Kern kern;
    g_nontriv = true;
    if(g_slot) bump(g_slot->faults, kind);
}
void mark_state(u64 h)
{
    Kern kern;
    if(g_quiet) return;
    if(g_isolate)
    {
        if(g_slot && g_slot->nstate < MAXSTATE) g_slot->statebuf[g_slot->nstate++] = h;
        return;
    }
    if(!g_states) return;
    int sv = g_sut;
    g_sut = 0;
    if(g_states->size() < (1u << 21)) g_states->insert(h);
    g_sut = sv;
}

void fail(const char* cls, const char* fmt, ...)
{
    g_sut = 0;
    char b[1800];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    throw Violation{cls, b};
}
void flag(const char* cls, const char* fmt, ...)
{
    Kern kern;
    if(g_flagged) return;
    g_flagged = true;
    char b[1800];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if(g_slot)
    {
        std::snprintf(g_slot->cls, sizeof g_slot->cls, "%s", cls);
        std::snprintf(g_slot->msg, sizeof g_slot->msg, "%s", b);
    }
}
bool flagged() { return g_flagged; }
void die(const char* cls, const char* msg)
{
    if(g_slot)
    {
        std::snprintf(g_slot->cls, sizeof g_slot->cls, "%s", cls);
        std::snprintf(g_slot->msg, sizeof g_slot->msg, "%s", msg);
        g_slot->state = 2;
    }
    _exit(77);
}

#ifdef SIM_SCHED
struct Ctx
{
    int sut = 0;
    Oom oom = Oom::none;
    u64 k = 0, n = 0, fired = 0;
};
void ctx_get(Ctx& c) { c = {g_sut, g_oom, g_oom_k, g_oom_n, g_oom_fired}; }
void ctx_set(const Ctx& c)
{
    g_sut = c.sut;
    g_oom = c.oom;
    g_oom_k = c.k;
    g_oom_n = c.n;
    g_oom_fired = c.fired;
}
bool in_sut() { return g_sut > 0; }
void step(u64 n)
{
    g_steps += n;
    if(g_running && g_steps > property.step_limit) die("hang", "step budget exceeded: the code under test does not terminate");
}
#endif
Sut::Sut() { ++g_sut; }
Sut::~Sut() { --g_sut; }
Harness::Harness()
{
    saved = g_sut;
    g_sut = 0;
}
Harness::~Harness() { g_sut = saved; }

void arm_oom(Oom mode, u64 k)
{
    g_oom = mode;
    g_oom_k = k;
    g_oom_n = 0;
    g_oom_fired = 0;
}
void disarm_oom() { g_oom = Oom::none; }
u64 oom_fired() { return g_oom_fired; }
u64 sut_allocs() { return g_alloc_n; }
u64 live_blocks() { return g_live; }
u64 live_bytes() { return g_live_bytes; }
u64 steps() { return g_steps; }
void forget_blocks()
{
    std::memset(g_tab, 0, sizeof g_tab);
    g_live = g_live_bytes = 0;
}
bool leaked_since(u64 blocks)
{
    if(g_live <= blocks) return false;
    drop_retained();
    return g_live > blocks;
}
void check_no_leak(const char* where)
{
    if(!g_live) return;
    drop_retained();
    if(!g_live) return;
    u64 n = g_live, b = g_live_bytes, seq = ~0ull;
    std::size_t sz = 0;
    for(auto& x : g_tab)
        if(x.p && x.seq < seq) seq = x.seq, sz = x.n;
    fail("leak", "%llu block(s), %llu bytes still allocated %s (first: allocation #%llu of %zu bytes)", (unsigned long long)n, (unsigned long long)b, where, (unsigned long long)seq, sz);
}
void random_oom(u64 max_k, u64 num, u64 den)
{
    if(!chance(num, den))
    {
        disarm_oom();
        g_oom_fired = 0;
        return;
    }
    switch(draw(4))
    {
    default: arm_oom(Oom::once, 1 + skewed(max_k - 1)); break;
    case 2: arm_oom(Oom::persistent, 1 + skewed(max_k - 1)); break;
    case 3: arm_oom(Oom::bigger, draw(2) ? skewed(200) : skewed(5000)); break;
    }
}

std::string esc(const std::string& s, std::size_t max)
{
    std::string r = "\"";
    for(std::size_t i = 0; i < s.size() && i < max; ++i)
    {
        unsigned char c = s[i];
        if(c == '"' || c == '\\') r += '\\', r += c;
        else if(c >= 32 && c < 127) r += c;
        else
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    r += s.size() > max ? "\"..." : "\"";
    return r;
}
std::string rand_ascii(u64 maxlen)
{
    std::string s;
    u64 n = skewed(maxlen);
    if(n > 64)
    {
        u64 k = draw(26);
        for(u64 i = 0; i < n; ++i) s += char('a' + (k + i * 7 + i / 26) % 26);
    }
    else
        for(u64 i = 0; i < n; ++i) s += char('a' + draw(26));
    return s;
}
std::string rand_bytes(u64 maxlen)
{
    std::string s;
    u64 n = skewed(maxlen);
    u64 k = draw(256);
    for(u64 i = 0; i < n; ++i) s += char((k + i * 37 + i / 11) & 255);
    return s;
}

std::string rand_utf8(u64 maxcps)
{
    static const char* const t[] = {"a", "Z", "0", " ", "\n", "{", "}", "'", "\\", "\xc3\xa9", "\xce\xa9", "\xe4\xb8\xad", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xf0\x90\x8d\x88"};
    std::string s;
    u64 n = skewed(maxcps);
    if(n <= 64)
        for(u64 i = 0; i < n; ++i)
        {
            u64 k = draw(16);
            if(k == 15) s += '\0';
            else s += t[k];
        }
    else
    {
        u64 k = draw(256);
        for(u64 i = 0; i < n; ++i) s += t[(k + i * 7 + i / 15) % 15];
    }
    return s;
}

// ---------------------------------------------------------------------------
namespace
{
u64 run_seed(u64 seed, u64 idx)
{
    u64 h = 1469598103934665603ull;
    for(const char* p = property.id; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    h ^= seed * 0x9e3779b97f4a7c15ull;
    u64 x = h + idx * 0xda942042e4dd58b5ull;
    return Rng::sm(x);
}

// executes one run in this process; returns true when a violation was found
bool exec_once(bool replay, const u64* in, u64 n, u64 seed)
{
    g_replay = replay;
    g_in = in;
    g_in_n = n;
    if(!replay) g_rng.seed(seed);
    g_pos = 0;
    g_hash = 0x243f6a8885a308d3ull;
    g_nontriv = false;
    g_flagged = false;
    g_steps = 0;
    g_alloc_n = 0;
    g_sut = 0;
    g_oom = Oom::none;
    g_oom_fired = g_oom_fired_run = 0;
    forget_blocks();
    g_slot->nchoices = g_slot->nops = g_slot->loglen = 0;
    g_slot->nstate = 0;
    g_slot->log[0] = 0;
    g_slot->cls[0] = g_slot->msg[0] = 0;
    g_slot->hash = g_hash;
    bool bad = false;
    g_running = true;
    try
    {
        property.run();
        g_sut = 0;
        g_oom = Oom::none;
        if(g_flagged) bad = true;
        else if(property.leak_check) check_no_leak("at the end of the run");
    }
    catch(const Violation& v)
    {
        bad = true;
        if(!g_flagged)
        {
            std::snprintf(g_slot->cls, sizeof g_slot->cls, "%s", v.cls.c_str());
            std::snprintf(g_slot->msg, sizeof g_slot->msg, "%s", v.msg.c_str());
        }
    }
    catch(const std::exception& e)
    {
        bad = true;
        g_sut = 0;
        std::snprintf(g_slot->cls, sizeof g_slot->cls, "unexpected-exception:%s", typeid(e).name());
        std::snprintf(g_slot->msg, sizeof g_slot->msg, "exception escaped to the harness: %s", e.what());
    }
    catch(...)
    {
        bad = true;
        g_sut = 0;
        std::snprintf(g_slot->cls, sizeof g_slot->cls, "unexpected-exception");
        std::snprintf(g_slot->msg, sizeof g_slot->msg, "unknown exception escaped to the harness");
    }
    g_running = false;
    g_sut = 0;
    g_oom = Oom::none;
    mixv(g_alloc_n);
    mixv(bad);
    g_slot->hash = g_hash;
    return bad;
}

// a leak only counts when it happens again on an immediate second execution
// (a function-local static initialised on first use is not a leak)
bool exec(bool replay, const u64* in, u64 n, u64 seed)
{
    bool bad = exec_once(replay, in, n, seed);
    if(bad && !std::strcmp(g_slot->cls, "leak"))
    {
        bool q = g_quiet;
        g_quiet = true;
        if(replay)
            bad = exec_once(true, in, n, seed);
        else
            bad = exec_once(false, nullptr, 0, seed);
        g_quiet = q;
    }
    return bad;
}

void on_terminate()
{
    char b[512] = "std::terminate called";
    char cls[256] = "terminate";
    if(std::type_info* t = abi::__cxa_current_exception_type())
    {
        int st;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        std::snprintf(b, sizeof b, "std::terminate called while handling %s", d ? d : t->name());
        std::snprintf(cls, sizeof cls, "terminate:%s", d ? d : t->name());
    }
    die(cls, b);
}

void warmup()
{
    if(g_isolate) return;
    g_quiet = true;
    exec_once(true, nullptr, 0, 0);
    g_quiet = false;
}

double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

// run choices in a forked child; result in *slot
struct Res
{
    bool bad = false;
    std::string cls, msg;
    u64 hash = 0;
};

std::string crash_class(const char* errfile, int st)
{
    std::string s;
    if(FILE* f = std::fopen(errfile, "r"))
    {
        char b[4096];
        std::size_t n;
        while((n = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        std::fclose(f);
    }
    auto grab = [&](const char* key) -> std::string
    {
        auto p = s.find(key);
        if(p == std::string::npos) return "";
        p += std::strlen(key);
        auto e = s.find_first_of(" \n", p);
        return s.substr(p, e - p);
    };
    std::string a = grab("ERROR: AddressSanitizer: ");
    if(!a.empty()) return "asan:" + a;
    auto p = s.find("runtime error: ");
    if(p != std::string::npos) return "ubsan:" + s.substr(p + 15, std::min<std::size_t>(40, s.find('\n', p) - p - 15));
    p = s.find("Assertion '");
    if(p != std::string::npos) return "assertion:" + s.substr(p + 11, std::min<std::size_t>(60, s.find('\'', p + 11) - p - 11));
    p = s.find("Assertion `");
    if(p != std::string::npos) return "assertion:" + s.substr(p + 11, std::min<std::size_t>(60, s.find('\'', p + 11) - p - 11));
    if(WIFSIGNALED(st)) return std::string("signal:") + strsignal(WTERMSIG(st));
    return "exit:" + std::to_string(WEXITSTATUS(st));
}

std::string slurp(const std::string& f, std::size_t max)
{
    std::string s;
    if(FILE* fp = std::fopen(f.c_str(), "r"))
    {
        s.resize(max);
        s.resize(std::fread(s.data(), 1, max, fp));
        std::fclose(fp);
    }
    return s;
}

std::string g_tmp; // scratch prefix

void child_stdio(const std::string& errfile)
{
    int fd = ::open(errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600);
    if(fd >= 0)
    {
        dup2(fd, 2);
        if(fd > 2) close(fd);
    }
    int nul = ::open("/dev/null", O_RDWR);
    if(nul >= 0)
    {
        dup2(nul, 0);
        dup2(nul, 1);
        if(nul > 2) close(nul);
    }
}

struct History;
bool exec_history(const History& h);

Res run_forked(Slot* slot, const std::vector<u64>& ch, double tmo, const History* hist = nullptr)
{
    std::string err = g_tmp + ".shrink.err";
    slot->state = 0;
    slot->cls[0] = slot->msg[0] = 0;
    slot->loglen = 0;
    pid_t pid = fork();
    if(pid == 0)
    {
        child_stdio(err);
        g_slot = slot;
        g_quiet = true;
        slot->state = 1;
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        bool bad = hist ? exec_history(*hist) : exec(true, ch.data(), ch.size(), 0);
        slot->state = bad ? 2 : 3;
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    for(;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if(r == pid) break;
        if(now() - t0 > tmo)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            Res x;
            x.bad = true;
            x.cls = "hang";
            x.msg = "run did not finish";
            return x;
        }
        usleep(g_isolate ? 20 : 100);
    }
    Res x;
    x.hash = slot->hash;
    if(slot->state == 3) return x;
    x.bad = true;
    if(slot->state == 2)
    {
        x.cls = slot->cls;
        x.msg = slot->msg;
    }
    else
    {
        x.cls = crash_class(err.c_str(), st);
        x.msg = slurp(err, 1500);
    }
    return x;
}

void write_replay(const std::string& path, u64 seed, u64 idx, const Res& r, const std::vector<u64>& ch, std::size_t orig, const Slot* slot, u64 hist_W, u64 hist_back)
{
    FILE* f = std::fopen(path.c_str(), "w");
    if(!f) return;
    std::fprintf(f, "property %s\nverif_seed %llu\nrun_index %llu\nrun_seed %llu\nclass %s\nhash %llx\n", property.id, (unsigned long long)seed, (unsigned long long)idx, (unsigned long long)run_seed(seed, idx), r.cls.c_str(), (unsigned long long)r.hash);
    if(g_isolate) std::fprintf(f, "isolated 1\n");
    if(hist_W) std::fprintf(f, "history %llu %llu\n", (unsigned long long)hist_W, (unsigned long long)hist_back);
    std::fprintf(f, "minimised_from %zu\nchoices %zu\n", orig, ch.size());
    for(std::size_t i = 0; i < ch.size(); ++i) std::fprintf(f, "%llu%c", (unsigned long long)ch[i], (i + 1) % 20 ? ' ' : '\n');
    std::fprintf(f, "\nmessage\n");
    std::string m = r.msg;
    for(auto& c : m)
        if((unsigned char)c < 32 && c != '\n') c = '?';
    std::size_t p = 0;
    while(p < m.size())
    {
        auto e = m.find('\n', p);
        if(e == std::string::npos) e = m.size();
        std::fprintf(f, "# %s\n", m.substr(p, e - p).c_str());
        p = e + 1;
    }
    std::fprintf(f, "trace\n%.*s", (int)slot->loglen, slot->log);
    std::fclose(f);
}

struct History;
bool read_replay(const char* path, std::vector<u64>& ch, std::string& cls, u64& hash, u64* hist)
{
    FILE* f = std::fopen(path, "r");
    if(!f) return false;
    char line[4096];
    while(std::fgets(line, sizeof line, f))
    {
        unsigned long long v, v2;
        if(std::sscanf(line, "verif_seed %llu", &v) == 1)
            hist[0] = v;
        else if(std::sscanf(line, "run_index %llu", &v) == 1)
            hist[1] = v;
        else if(std::sscanf(line, "history %llu %llu", &v, &v2) == 2)
            hist[2] = v, hist[3] = v2;
        else if(std::sscanf(line, "isolated %llu", &v) == 1)
            g_isolate = v;
        else if(!std::strncmp(line, "class ", 6))
        {
            cls = line + 6;
            while(!cls.empty() && cls.back() == '\n') cls.pop_back();
        }
        else if(std::sscanf(line, "hash %llx", &v) == 1)
            hash = v;
        else if(std::sscanf(line, "choices %llu", &v) == 1)
        {
            for(unsigned long long i = 0, x; i < v; ++i)
                if(std::fscanf(f, "%llu", &x) == 1) ch.push_back(x);
            break;
        }
    }
    std::fclose(f);
    return true;
}

Slot* map_slots(int n)
{
    void* p = mmap(nullptr, sizeof(Slot) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(p == MAP_FAILED)
    {
        std::perror("mmap");
        _exit(2);
    }
    return (Slot*)p;
}

std::vector<u64> shrink(Slot* slot, std::vector<u64> best, const std::string& cls, double budget)
{
    double t0 = now();
    u64 tries = 0;
    auto ok = [&](const std::vector<u64>& c) -> bool
    {
        ++tries;
        Res r = run_forked(slot, c, 30);
        return r.bad && r.cls == cls;
    };
    auto spans = [&]() -> std::vector<std::pair<std::size_t, std::size_t>>
    {
        run_forked(slot, best, 30);
        std::vector<std::pair<std::size_t, std::size_t>> v;
        for(u64 i = 0; i < slot->nops; ++i)
        {
            std::size_t a = slot->ops[i], b = i + 1 < slot->nops ? slot->ops[i + 1] : best.size();
            if(a < b && b <= best.size()) v.push_back({a, b});
        }
        return v;
    };
    bool progress = true;
    while(progress && now() - t0 < budget)
    {
        progress = false;
        // truncate the unread tail
        run_forked(slot, best, 30);
        if(slot->nchoices < best.size())
        {
            auto c = best;
            c.resize(slot->nchoices);
            if(ok(c)) best = c, progress = true;
        }
        // drop whole operations
        auto sp = spans();
        for(std::size_t i = sp.size(); i-- > 0 && now() - t0 < budget;)
        {
            auto c = best;
            if(sp[i].second > c.size()) continue;
            c.erase(c.begin() + sp[i].first, c.begin() + sp[i].second);
            if(ok(c)) best = c, progress = true;
        }
        // drop blocks
        for(std::size_t w = best.size() / 2; w >= 1 && now() - t0 < budget; w /= 2)
            for(std::size_t i = best.size(); i-- > 0 && now() - t0 < budget;)
            {
                if(i + w > best.size()) continue;
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + w);
                if(ok(c)) best = c, progress = true;
                if(w > 1) i = i >= w ? i - w + 1 : 0;
            }
        // lower values
        for(std::size_t i = 0; i < best.size() && now() - t0 < budget; ++i)
        {
            if(!best[i]) continue;
            auto c = best;
            c[i] = 0;
            if(ok(c))
            {
                best = c;
                progress = true;
                continue;
            }
            u64 lo = 0, hi = best[i];
            while(lo + 1 < hi && now() - t0 < budget)
            {
                u64 mid = lo + (hi - lo) / 2;
                c = best;
                c[i] = mid;
                if(ok(c)) best = c, hi = mid, progress = true;
                else lo = mid;
            }
        }
    }
    return best;
}

void merge(Counter* d, const Counter* s)
{
    for(int i = 0; i < MAXCNT && s[i].name[0]; ++i)
        for(int j = 0; j < MAXCNT; ++j)
        {
            if(!d[j].name[0]) std::memcpy(d[j].name, s[i].name, sizeof d[j].name);
            if(!std::strcmp(d[j].name, s[i].name))
            {
                d[j].n += s[i].n;
                break;
            }
        }
}

std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') r += '\\', r += (char)c;
        else if(c < 32 || c >= 127)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += (char)c;
    }
    return r + "\"";
}

struct Shared
{
    std::atomic<u64> stop_at;
    unsigned char edges[EDGEBITS];
};

// one run in a child of its own; the slot tells how it went.  Returns 0 (clean),
// 1 (violation) or never (the child died: so does this process, the same way).
int isolated(Slot* slot, bool replay, const u64* in, u64 n, u64 seed, bool quiet)
{
    slot->state = 1;
    pid_t p = fork();
    if(p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_quiet = quiet;
        bool bad = exec(replay, in, n, seed);
        slot->run_steps = g_steps;
        slot->run_allocs = g_alloc_n;
        slot->run_oom = g_oom_fired_run;
        slot->run_nontriv = g_nontriv;
        slot->state = bad ? 2 : 3;
        _exit(0);
    }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if(slot->state == 3) return 0;
    if(slot->state == 2) return 1;
    if(WIFSIGNALED(st))
    {
        std::signal(WTERMSIG(st), SIG_DFL);
        kill(getpid(), WTERMSIG(st));
    }
    _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 70);
}

bool wants_pair(u64 i, int W) { return (i / W) % 32 == 7 || i < 64; }

void worker(Slot* slot, Shared* sh, int w, int W, u64 seed, u64 first, u64 total, double deadline, const std::string& hashfile)
{
    g_slot = slot;
    std::unordered_set<u64> seen, seen_nt, states;
    g_states = &states;
    if(g_isolate) g_edges = sh->edges;
    warmup();
    double last = 0;
    for(u64 i = first + w; i < first + total; i += W)
    {
        if(i > sh->stop_at.load()) break;
        if((slot->runs & 15) == 0)
        {
            last = now();
            if(last > deadline) break;
        }
        slot->run_idx = i;
        slot->state = 1;
        slot->heartbeat = slot->heartbeat + 1;
        u64 rs = run_seed(seed, i);
        bool bad;
        if(g_isolate)
        {
            bad = isolated(slot, false, nullptr, 0, rs, false);
            g_steps = slot->run_steps;
            g_alloc_n = slot->run_allocs;
            g_oom_fired_run = slot->run_oom;
            g_nontriv = slot->run_nontriv;
            for(u64 k = 0; k < slot->nstate; ++k) states.insert(slot->statebuf[k]);
        }
        else
            bad = exec(false, nullptr, 0, rs);
        ++slot->runs;
        slot->steps += g_steps;
        slot->allocs += g_alloc_n;
        slot->oomfired += g_oom_fired_run;
        if(g_steps > slot->max_steps) slot->max_steps = g_steps;
        auto stop = [&]
        {
            u64 cur = sh->stop_at.load();
            while(i < cur && !sh->stop_at.compare_exchange_weak(cur, i)) {}
        };
        if(bad)
        {
            slot->state = 2;
            stop();
            return;
        }
        u64 h = slot->hash;
        seen.insert(h);
        if(g_nontriv)
        {
            ++slot->nontriv;
            seen_nt.insert(h);
        }
        if(wants_pair(i, W))
        {
            // determinism: the same choices, executed again, give the same history
            std::vector<u64> ch(slot->choices, slot->choices + slot->nchoices);
            bool b2, b3;
            u64 h2;
            if(g_isolate)
            {
                std::string log1 = slot->log;
                b2 = isolated(slot, false, nullptr, 0, rs, true);
                h2 = slot->hash;
                b3 = isolated(slot, true, ch.data(), ch.size(), 0, true);
                if(const char* to = std::getenv("SIM_SHOW_DIFF"); to && (b2 || b3 || h2 != h || slot->hash != h))
                {
                    FILE* df = std::fopen(to, "a");
                    std::fprintf(df, "%d %d %s %s\n---- first\n%s---- second\n%s", b2, b3, slot->cls, slot->msg, log1.c_str(), slot->log);
                    std::fclose(df);
                }
            }
            else
            {
                g_quiet = true;
                b2 = exec(false, nullptr, 0, rs);
                h2 = slot->hash;
                b3 = exec(true, ch.data(), ch.size(), 0);
                g_quiet = false;
            }
            ++slot->det_pairs;
            if(b2 || b3 || h2 != h || slot->hash != h)
            {
                slot->state = 4;
                std::snprintf(slot->msg, sizeof slot->msg, "run %llu is not reproducible: %llx / %llx / %llx", (unsigned long long)i, (unsigned long long)h, (unsigned long long)h2, (unsigned long long)slot->hash);
                stop();
                return;
            }
        }
    }
    slot->distinct = seen.size();
    slot->distinct_nontriv = seen_nt.size();
    slot->states = states.size();
    if(FILE* f = std::fopen(hashfile.c_str(), "wb"))
    {
        u64 n = seen_nt.size();
        std::fwrite(&n, 8, 1, f);
        for(u64 h : seen_nt) std::fwrite(&h, 8, 1, f);
        n = states.size();
        std::fwrite(&n, 8, 1, f);
        for(u64 h : states) std::fwrite(&h, 8, 1, f);
        std::fclose(f);
    }
    if(!g_isolate)
        for(u64 i = 0; i < EDGEBITS; ++i)
            if(g_edges[i]) sh->edges[i] = 1;
    slot->state = 3;
}

// What a worker did up to and including run idx, starting back runs earlier; stops at the
// first execution that fails.  For behaviour that depends on earlier calls.
struct History
{
    u64 seed = 0, idx = 0, W = 0, back = 0;
};
bool exec_history(const History& h)
{
    warmup();
    u64 first = h.idx - h.W * h.back;
    for(u64 i = first; i <= h.idx; i += h.W)
    {
        u64 rs = run_seed(h.seed, i);
        if(exec(false, nullptr, 0, rs)) return true;
        if(wants_pair(i, h.W))
        {
            std::vector<u64> ch(g_slot->choices, g_slot->choices + g_slot->nchoices);
            if(exec(false, nullptr, 0, rs) || exec(true, ch.data(), ch.size(), 0)) return true;
        }
    }
    return false;
}

int do_replay(const char* path, bool verbose)
{
    std::vector<u64> ch;
    std::string cls;
    u64 hash = 0;
    u64 hist[4] = {};
    if(!read_replay(path, ch, cls, hash, hist))
    {
        std::fprintf(stderr, "cannot read %s\n", path);
        return 2;
    }
    Slot* s = map_slots(1);
    g_slot = s;
    // the warm-up runs in the child as well: a crash there is a crash of the run
    Res r;
    {
        std::string err = g_tmp + ".replay.err";
        pid_t pid = fork();
        if(pid == 0)
        {
            child_stdio(err);
            g_slot = s;
            g_quiet = true;
            if(!hist[2]) warmup();
            s->state = 1;
            bool bad = hist[2] ? exec_history(History{hist[0], hist[1], hist[2], hist[3]}) : exec(true, ch.data(), ch.size(), 0);
            s->state = bad ? 2 : 3;
            _exit(0);
        }
        int st = 0;
        double t0 = now();
        bool hung = false;
        while(waitpid(pid, &st, WNOHANG) != pid)
        {
            if(now() - t0 > (hist[2] ? 200 : 60))
            {
                kill(pid, SIGKILL);
                waitpid(pid, &st, 0);
                hung = true;
                break;
            }
            usleep(200);
        }
        r.hash = s->hash;
        r.bad = s->state != 3;
        if(hung) r.cls = "hang";
        else if(s->state == 2) r.cls = s->cls, r.msg = s->msg;
        else if(r.bad) r.cls = crash_class(err.c_str(), st), r.msg = slurp(err, 1500);
        unlink(err.c_str());
    }
    if(verbose)
    {
        std::printf("%.*s", (int)s->loglen, s->log);
        std::printf("result: %s\n", r.bad ? r.cls.c_str() : "no violation");
        if(r.bad) std::printf("%s\n", r.msg.c_str());
        std::printf("hash %llx (recorded %llx)\n", (unsigned long long)r.hash, (unsigned long long)hash);
    }
    if(!r.bad) return 0;
    if(r.cls != cls) return 4;
    if(r.hash != hash && r.cls != "hang") return 5;
    return 1;
}
} // namespace
} // namespace sim

// ---- seams that must be global -------------------------------------------
extern "C" __attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc()
{
    using namespace sim;
    u64 pc = (u64)__builtin_return_address(0);
    g_edges[((pc >> 1) ^ (pc >> 19)) & (EDGEBITS - 1)] = 1;
    if(g_running && ++g_steps > property.step_limit) die("hang", "step budget exceeded: the code under test does not terminate");
}

void* operator new(std::size_t n) { return sim::do_new(n, 0, 0, false); }
void* operator new[](std::size_t n) { return sim::do_new(n, 0, 1, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, 0, 0, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, 0, 1, true); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::do_new(n, (std::size_t)a, 2, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::do_new(n, (std::size_t)a, 3, false); }
void operator delete(void* p) noexcept { sim::do_del(p, 0); }
void operator delete[](void* p) noexcept { sim::do_del(p, 1); }
void operator delete(void* p, std::size_t) noexcept { sim::do_del(p, 0); }
void operator delete[](void* p, std::size_t) noexcept { sim::do_del(p, 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::do_del(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::do_del(p, 1); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_del(p, 2); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_del(p, 3); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::do_del(p, 2); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::do_del(p, 3); }

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64:malloc_context_size=12"; }

int main(int argc, char** argv)
{
    using namespace sim;
    std::set_terminate(on_terminate);
    u64 seed = 1, total = 0, first = 0;
    int W = 8;
    double maxs = 60, shrinks = 60;
    std::string out, replay_dir = ".", replay, stats;
    bool quiet = false, fallback = false;
    g_isolate = property.isolate;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if(a == "--seed") seed = std::strtoull(nx(), nullptr, 10);
        else if(a == "--runs") total = std::strtoull(nx(), nullptr, 10);
        else if(a == "--first") first = std::strtoull(nx(), nullptr, 10);
        else if(a == "--workers") W = std::atoi(nx());
        else if(a == "--max-secs") maxs = std::atof(nx());
        else if(a == "--shrink-secs") shrinks = std::atof(nx());
        else if(a == "--replay-dir") replay_dir = nx();
        else if(a == "--replay") replay = nx();
        else if(a == "--stats") stats = nx();
        else if(a == "--quiet") quiet = true;
        else if(a == "--isolate") g_isolate = true, fallback = true;
        else if(a == "--info")
        {
            std::printf("{\"id\": %s, \"quick_runs\": %llu, \"thorough_runs\": %llu, \"rule\": %s, \"real\": %s, \"stub\": %s}\n", jstr(property.id).c_str(), (unsigned long long)property.quick_runs, (unsigned long long)property.thorough_runs, jstr(property.rule).c_str(), jstr(property.real).c_str(), jstr(property.stub).c_str());
            return 0;
        }
    }
    g_tmp = replay_dir + "/." + property.id + "." + std::to_string(getpid());
    if(!replay.empty()) return do_replay(replay.c_str(), !quiet);
    if(!total) total = property.quick_runs;
    if(W > MAXW) W = MAXW;

    Slot* slots = map_slots(W + 1);
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->stop_at = ~0ull;
    double t0 = now();
    double deadline = t0 + maxs;
    std::vector<pid_t> pids(W, -1);
    std::vector<std::string> errs(W), hf(W);
    for(int w = 0; w < W; ++w)
    {
        errs[w] = g_tmp + ".w" + std::to_string(w) + ".err";
        hf[w] = g_tmp + ".w" + std::to_string(w) + ".hash";
        slots[w].run_idx = ~0ull;
        pid_t p = fork();
        if(p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            child_stdio(errs[w]);
            worker(&slots[w], sh, w, W, seed, first, total, deadline, hf[w]);
            _exit(0);
        }
        pids[w] = p;
    }
    struct Found
    {
        u64 idx;
        Res r;
        std::vector<u64> ch;
    };
    std::vector<Found> found;
    std::vector<u64> hb(W, 0);
    std::vector<double> hbt(W, now());
    int alive = W;
    bool nondet = false;
    std::string nondet_msg;
    u64 nondet_idx = ~0ull;
    while(alive)
    {
        for(int w = 0; w < W; ++w)
        {
            if(pids[w] < 0) continue;
            int st;
            bool hung = false;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if(r == 0)
            {
                if(slots[w].heartbeat != hb[w])
                {
                    hb[w] = slots[w].heartbeat;
                    hbt[w] = now();
                    continue;
                }
                if(now() - hbt[w] > 90 && slots[w].state == 1)
                {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    hung = true;
                }
                else
                    continue;
            }
            pids[w] = -1;
            --alive;
            Slot& s = slots[w];
            if(s.state == 4)
            {
                nondet = true;
                if(s.run_idx < nondet_idx) nondet_idx = s.run_idx, nondet_msg = s.msg;
                continue;
            }
            if(s.state == 3) continue;
            Found f;
            f.idx = s.run_idx;
            f.r.bad = true;
            f.r.hash = s.hash;
            if(hung) f.r.cls = "hang";
            else if(s.state == 2)
            {
                f.r.cls = s.cls;
                f.r.msg = s.msg;
            }
            else
            {
                f.r.cls = crash_class(errs[w].c_str(), st);
                f.r.msg = slurp(errs[w], 1500);
            }
            f.ch.assign(s.choices, s.choices + s.nchoices);
            u64 cur = sh->stop_at.load();
            while(f.idx < cur && !sh->stop_at.compare_exchange_weak(cur, f.idx)) {}
            found.push_back(f);
        }
        usleep(2000);
    }
    double t1 = now();
    // merge statistics
    static Slot tot;
    std::unordered_set<u64> uniq, states;
    u64 edges = 0;
    for(int w = 0; w < W; ++w)
    {
        Slot& s = slots[w];
        tot.runs += s.runs;
        tot.nontriv += s.nontriv;
        tot.steps += s.steps;
        tot.allocs += s.allocs;
        tot.oomfired += s.oomfired;
        tot.det_pairs += s.det_pairs;
        tot.max_steps = std::max(tot.max_steps, s.max_steps);
        merge(tot.faults, s.faults);
        merge(tot.probes, s.probes);
        if(FILE* f = std::fopen(hf[w].c_str(), "rb"))
        {
            for(auto* set : {&uniq, &states})
            {
                u64 n = 0, h;
                if(std::fread(&n, 8, 1, f) != 1) break;
                while(n-- && std::fread(&h, 8, 1, f) == 1) set->insert(h);
            }
            std::fclose(f);
        }
        unlink(hf[w].c_str());
        unlink(errs[w].c_str());
    }
    for(auto e : sh->edges) edges += e;

    // two sample histories for the evidence file (fault-free re-execution in a child)
    std::vector<std::string> samples;
    for(u64 i = first, k = 0; i < first + total && k < 40 && samples.size() < 2; ++i, ++k)
    {
        Slot* s = &slots[W];
        pid_t p = fork();
        if(p == 0)
        {
            child_stdio(g_tmp + ".s.err");
            g_slot = s;
            g_quiet = true;
            warmup();
            exec(false, nullptr, 0, run_seed(seed, i));
            s->state = g_nontriv ? 9 : 8;
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        unlink((g_tmp + ".s.err").c_str());
        if(s->state == 9) samples.push_back("run " + std::to_string(i) + " seed " + std::to_string(run_seed(seed, i)) + ":\n" + std::string(s->log, std::min<u64>(s->loglen, 1500)));
    }

    int rc = 0;
    bool unstable = false;
    std::string vline;
    Found best;
    // fresh-process replay must reproduce exactly
    auto gate = [&](const Res& r, const std::vector<u64>& ch, u64 hist_W, u64 hist_back) -> bool
    {
        std::string path = replay_dir + "/" + property.id + "-" + std::to_string(seed) + "-" + std::to_string(best.idx) + ".replay";
        write_replay(path, seed, best.idx, r, ch, best.ch.size(), &slots[W], hist_W, hist_back);
        std::string self(4096, 0);
        ssize_t n = readlink("/proc/self/exe", self.data(), self.size());
        self.resize(n > 0 ? n : 0);
        for(int k = 0; k < 2; ++k)
        {
            pid_t p = fork();
            if(p == 0)
            {
                execl(self.c_str(), self.c_str(), "--replay", path.c_str(), "--quiet", "--replay-dir", replay_dir.c_str(), (char*)nullptr);
                _exit(3);
            }
            int st;
            waitpid(p, &st, 0);
            int pr = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
            if(pr != 1)
            {
                std::printf("note: replay of %s in a fresh process gives status %d\n", path.c_str(), pr);
                unstable = true;
                return false;
            }
        }
        vline = path;
        return true;
    };
    if(!found.empty())
    {
        std::sort(found.begin(), found.end(), [](auto& a, auto& b) { return a.idx < b.idx; });
        best = found[0];
        Slot* s = &slots[W];
        g_slot = s;
        g_quiet = true;
        // warm up in this process so that forked children start warm (forked first: it may crash)
        {
            pid_t p = fork();
            if(p == 0)
            {
                child_stdio(g_tmp + ".wu.err");
                warmup();
                _exit(0);
            }
            int st;
            waitpid(p, &st, 0);
            unlink((g_tmp + ".wu.err").c_str());
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0) warmup();
        }
        Res a = run_forked(s, best.ch, 60), b = run_forked(s, best.ch, 60);
        if(!a.bad || !b.bad || a.cls != b.cls || (a.hash != b.hash && a.cls != "hang"))
        {
            std::printf("note: run %llu (%s: %s) does not fail the same way on its own: '%s', then '%s'\n", (unsigned long long)best.idx, best.r.cls.c_str(), best.r.msg.c_str(), a.cls.c_str(), b.cls.c_str());
            unstable = true;
        }
        else
        {
            auto small = shrink(s, best.ch, a.cls, shrinks);
            Res r = run_forked(s, small, 60);
            if(!r.bad || r.cls != a.cls)
            {
                small = best.ch;
                r = run_forked(s, small, 60);
            }
            if(gate(r, small, 0, 0)) rc = 1, best.r = r;
        }
        unlink((g_tmp + ".shrink.err").c_str());
    }
    else if(nondet)
    {
        std::printf("note: %s\n", nondet_msg.c_str());
        unstable = true;
        best.idx = nondet_idx;
    }
    if(unstable && rc == 0 && !g_isolate)
    { // the behaviour depends on what ran before in the same process: first look for the
      // shortest history that shows a violation, then search with every run on its own
        Slot* s = &slots[W];
        u64 most = (best.idx - first) / W;
        for(u64 back = 0; now() - t1 < 120; back = back ? back * 2 : 1)
        {
            if(back > most) back = most;
            History h{seed, best.idx, (u64)W, back};
            Res r = run_forked(s, {}, 100, &h);
            if(r.bad)
            {
                Res r2 = run_forked(s, {}, 100, &h);
                if(r2.bad && r2.cls == r.cls && (r2.hash == r.hash || r.cls == "hang") && gate(r2, {}, W, back))
                {
                    rc = 1;
                    best.r = r2;
                }
                else rc = 0;
                break;
            }
            if(back == most) break;
        }
        unlink((g_tmp + ".shrink.err").c_str());
        if(rc != 1)
        {
            std::printf("note: searching again with every run in a process of its own\n");
            std::fflush(stdout);
            std::vector<std::string> args(argv, argv + argc);
            args.push_back("--isolate");
            std::vector<char*> av;
            for(auto& x : args) av.push_back(x.data());
            av.push_back(nullptr);
            execv("/proc/self/exe", av.data());
            rc = 2;
        }
    }
    else if(unstable && rc == 0)
    {
        std::printf("ERROR: runs in a process of their own are not reproducible\n");
        rc = 2;
    }

    if(!stats.empty())
    {
        FILE* f = std::fopen(stats.c_str(), "w");
        auto cnt = [&](Counter* c)
        {
            std::string r = "{";
            for(int i = 0; i < MAXCNT && c[i].name[0]; ++i)
                r += (i ? ", " : "") + jstr(c[i].name) + ": " + std::to_string(c[i].n);
            return r + "}";
        };
        std::string sj = "[";
        for(std::size_t i = 0; i < samples.size(); ++i) sj += (i ? ", " : "") + jstr(samples[i]);
        sj += "]";
        std::fprintf(f, "{\"runs\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %zu, \"states\": %zu, \"edges\": %llu, \"steps\": %llu, \"max_steps\": %llu, \"allocs\": %llu, \"det_pairs\": %llu, \"wall\": %.3f, \"faults\": %s, \"probes\": %s, \"samples\": %s, \"rule\": %s, \"real\": %s, \"stub\": %s, \"violation\": %s, \"replay\": %s}\n", (unsigned long long)tot.runs, (unsigned long long)tot.nontriv, uniq.size(), states.size(), (unsigned long long)edges, (unsigned long long)tot.steps, (unsigned long long)tot.max_steps, (unsigned long long)tot.allocs, (unsigned long long)tot.det_pairs, t1 - t0, cnt(tot.faults).c_str(), cnt(tot.probes).c_str(), sj.c_str(), jstr(property.rule).c_str(), jstr(property.real).c_str(), jstr(property.stub).c_str(), rc == 1 ? jstr(best.r.cls + ": " + best.r.msg).c_str() : "null", rc == 1 ? jstr(vline).c_str() : "null");
        std::fclose(f);
    }
    if(rc == 1)
    {
        std::printf("violation class: %s\n%s\n", best.r.cls.c_str(), best.r.msg.c_str());
        for(std::size_t p = 0; (p = best.r.msg.find("pc=0x", p)) != std::string::npos; p += 5)
        {
            unsigned long pc = std::strtoul(best.r.msg.c_str() + p + 3, nullptr, 16);
            char cmd[256];
            std::snprintf(cmd, sizeof cmd, "addr2line -Cifpe /proc/%d/exe 0x%lx", (int)getpid(), pc ? pc - 1 : 0);
            std::printf("pc 0x%lx:\n", pc);
            std::fflush(stdout);
            if(std::system(cmd)) {}
        }
    }
    return rc;
}
