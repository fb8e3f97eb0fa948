// Deterministic simulation kernel used by every check.
//
// One run = one pure function of a sequence of choices.  In search mode the
// choices come from a PRNG seeded from (VERIF_SEED, property, run index) and are
// recorded; in replay mode they come from a file.  Every fault, every schedule
// decision and every generated operation is such a choice.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>

namespace sim
{
using u64 = std::uint64_t;

// ---- choices -------------------------------------------------------------
u64 draw(u64 n); // uniform in [0, n); 0 is by convention the simplest choice
inline bool chance(u64 num, u64 den) { return draw(den) >= den - num; } // 0 -> false
inline u64 range(u64 lo, u64 hi) { return lo + draw(hi - lo + 1); }     // inclusive
u64 skewed(u64 max); // in [0, max], biased to small
void op_begin();     // marks the start of one operation (for the minimiser)

template <typename T, std::size_t N>
const T& pick(const T (&a)[N]) { return a[draw(N)]; }

// ---- event log -----------------------------------------------------------
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_bytes(const char* tag, const void* p, std::size_t n); // logs size + escaped head
void mix(u64 v);                                              // into the run hash only
void mix_bytes(const void* p, std::size_t n);
void nontrivial();           // this run exercised something (fault fired / preempted ...)
void probe(const char* name); // "rare condition reached" counter
void fault(const char* kind); // a fault of this kind actually fired
void mark_state(u64 h);        // abstract state reached (distinct count is reported)

// ---- verdicts ------------------------------------------------------------
struct Violation
{
    std::string cls;
    std::string msg;
};
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void flag(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3))); // from callbacks
[[noreturn]] void die(const char* cls, const char* msg); // from places that cannot unwind
bool flagged();

// ---- allocator seam --------------------------------------------------------
// While a Sut scope is open (and no Harness scope inside it) every allocation the
// code under test makes is tracked and may be failed.
struct Sut
{
    Sut();
    ~Sut();
};
struct Harness
{
    Harness();
    ~Harness();
    int saved;
};
enum class Oom
{
    none,
    once,       // the k-th allocation fails, later ones succeed
    persistent, // the k-th and all later ones fail
    bigger      // allocations larger than k bytes fail
};
void arm_oom(Oom mode, u64 k);
void disarm_oom();
u64 oom_fired();    // faults fired since arm
u64 sut_allocs();   // allocations made in Sut scopes since run start
u64 live_blocks();  // tracked blocks alive
u64 live_bytes();
bool leaked_since(u64 blocks); // more live blocks than that, not counting what static objects keep
void check_no_leak(const char* where); // fails the run when tracked blocks are alive
void forget_blocks();
u64 steps();
u64 total_sim_steps();

// a random OOM plan: none most of the time
void random_oom(u64 max_k, u64 num = 1, u64 den = 2);

// ---- misc ------------------------------------------------------------------
std::string esc(const std::string& s, std::size_t max = 60);
std::string rand_ascii(u64 maxlen);
std::string rand_bytes(u64 maxlen);
std::string rand_utf8(u64 maxcps); // well-formed UTF-8, NUL included

struct Property
{
    const char* id;
    void (*run)();
    u64 quick_runs;
    u64 thorough_runs;
    u64 step_limit;      // instrumented edges per run before it counts as a hang
    const char* rule;    // how cases are made / what is non-trivial
    const char* real;    // components that ran real code
    const char* stub;    // components that ran a stub
    bool leak_check = true;
    bool isolate = false; // every run in a process of its own (no warm-up, no history)
};
extern const Property property;

// scheduler hooks (sched.cpp); weak no-ops otherwise
} // namespace sim
