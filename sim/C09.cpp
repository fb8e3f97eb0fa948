// C09: optional_unique_ptr frees what it owns exactly once and nothing else.
// SIM: src=none
#include "sim.hpp"
#include <papilio/memory.hpp>
#include <map>
#include <memory>
#include <set>
#include <vector>

using namespace sim;

namespace
{
struct CtorThrow
{
};
struct World
{
    static inline std::set<const void*> alive;
    static inline std::map<const void*, int> freed_by; // block -> tag of the deleter call
    static inline long count = 0;
    static inline int throw_in = -1;
};
struct Obj
{
    int v;
    int* cell;
    explicit Obj(int x = 0) : v(x)
    {
        if(World::throw_in >= 0 && World::throw_in-- == 0)
        {
            Harness h;
            fault("throwing-constructor");
            throw CtorThrow{};
        }
        cell = (int*)std::malloc(4);
        *cell = x;
        ++World::count;
    }
    Obj(const Obj&) = delete;
    ~Obj()
    {
        std::free(cell);
        --World::count;
    }
};
template <bool Arr>
struct Del
{
    int tag = 0;
    void operator()(Obj* p) const noexcept
    {
        {
            Harness h;
            if(!p) die("deleter-on-null", "the deleter was called on a null pointer");
            World::freed_by[p] = tag;
        }
        if constexpr(Arr) delete[] p;
        else delete p;
    }
};

template <bool Arr, bool Stateful>
struct Machine
{
    using Elem = std::conditional_t<Arr, Obj[], Obj>;
    using D = std::conditional_t<Stateful, Del<Arr>, std::default_delete<Elem>>;
    using P = papilio::optional_unique_ptr<Elem, D>;
    static constexpr int S = 4;
    struct Slot
    {
        Obj* p = nullptr;
        bool owned = false;
        int tag = 0;
    };
    std::unique_ptr<P> s[S];
    Slot m[S];
    std::map<Obj*, long> blocks; // live owned-or-external blocks -> number of objects
    std::vector<std::pair<Obj*, int>> expect_freed;
    std::vector<Obj*> external; // blocks the harness owns
    int next = 1;

    Obj* fresh(long& n)
    {
        n = Arr ? 1 + (long)draw(3) : 1;
        Obj* p;
        if constexpr(Arr) p = new Obj[n];
        else p = new Obj(next);
        ++next;
        blocks[p] = n;
        return p;
    }
    void model_free(Slot& x)
    {
        if(x.p && x.owned)
        {
            expect_freed.push_back({x.p, x.tag});
            blocks.erase(x.p);
        }
        x.p = nullptr;
        x.owned = false;
    }
    void retag(int i)
    {
        if constexpr(Stateful)
        {
            m[i].tag = next++;
            s[i]->get_deleter().tag = m[i].tag;
        }
    }
    void verify(const char* op)
    {
        long n = 0;
        for(auto& [p, k] : blocks) n += k;
        if(World::count != n) fail(World::count > n ? "leak" : "freed-early", "%s: %ld objects alive, expected %ld", op, World::count, n);
        if constexpr(Stateful)
        {
            for(auto& [p, tag] : expect_freed)
            {
                auto it = World::freed_by.find(p);
                if(it == World::freed_by.end()) fail("leak", "%s: a block that lost its owner was not freed", op);
                if(it->second != tag) fail("wrong-deleter", "%s: block freed through deleter %d, expected %d", op, it->second, tag);
                World::freed_by.erase(it);
            }
            if(!World::freed_by.empty()) fail("freed-early", "%s: a block was freed that still has an owner", op);
        }
        expect_freed.clear();
        World::freed_by.clear();
        for(int i = 0; i < S; ++i)
        {
            const P& q = *s[i];
            if(q.get() != m[i].p) fail("pointer", "%s: slot %d does not hold the expected pointer", op, i);
            if(q.has_ownership() != (m[i].owned && m[i].p)) fail("ownership", "%s: slot %d has_ownership()=%d, expected %d", op, i, (int)q.has_ownership(), (int)m[i].owned);
            if((bool)q != (m[i].p != nullptr) || (q == nullptr) != (m[i].p == nullptr) || (nullptr == q) != (m[i].p == nullptr)) fail("pointer", "%s: null tests of slot %d disagree", op, i);
            for(int j = 0; j < S; ++j)
                if((*s[i] == *s[j]) != (m[i].p == m[j].p)) fail("pointer", "%s: comparison of slots %d and %d", op, i, j);
            if(m[i].p && blocks.count(m[i].p))
            {
                if constexpr(Arr)
                {
                    if(&q[blocks[m[i].p] - 1] != m[i].p + (blocks[m[i].p] - 1)) fail("pointer", "operator[]");
                }
                else if(&*q != m[i].p || q->v != m[i].p->v) fail("pointer", "dereference");
            }
        }
        u64 h = 0;
        for(auto& x : m) h = h * 8 + (x.p ? 1 + x.owned + 2 * blocks.count(x.p) : 0);
        for(int i = 0; i < S; ++i)
            for(int j = 0; j < i; ++j) h = h * 2 + (m[i].p == m[j].p);
        mark_state(h * 2 + Arr);
        mix(h);
    }
    void go()
    {
        Sut sut;
        for(int i = 0; i < S; ++i) s[i] = std::make_unique<P>(), retag(i);
        const int nops = 1 + (int)draw(24);
        for(int step = 0; step < nops; ++step)
        {
            op_begin();
            int a = (int)draw(S), b = (int)draw(S), op = (int)draw(18);
            bool oom = draw(5) == 4, thr = draw(5) == 4;
            static const char* names[] = {"reset(ptr,true)", "reset(ptr,false)", "reset()", "reset(nullptr)", "reset(unique_ptr)", "construct(ptr,true)", "construct(unique_ptr)", "make_optional_unique", "copy construct", "move construct", "copy assign", "move assign", "swap", "release", "destroy", "construct(nullptr,true)", "reset(independent/null)", "pointer_to"};
            const char* name = names[op];
            {
                Harness h;
                ev("%s a=%d b=%d%s%s", name, a, b, oom ? " [alloc fault]" : "", thr ? " [ctor fault]" : "");
            }
            long n = 0;
            Slot& x = m[a];
            switch(op)
            {
            case 0:
            {
                Obj* p = fresh(n);
                s[a]->reset(p, true);
                model_free(x);
                x.p = p;
                x.owned = true;
                break;
            }
            case 1:
            {
                Obj* p = fresh(n);
                external.push_back(p);
                s[a]->reset(p, false);
                model_free(x);
                x.p = p;
                x.owned = false;
                break;
            }
            case 2:
                s[a]->reset();
                model_free(x);
                break;
            case 3:
                s[a]->reset(nullptr);
                model_free(x);
                break;
            case 4:
            {
                std::unique_ptr<Elem, D> u(draw(5) == 4 ? nullptr : fresh(n));
                Obj* p = u.get();
                int tag = x.tag;
                if constexpr(Stateful)
                    if(p) u.get_deleter().tag = tag = next++; // the deleter comes with the object
                s[a]->reset(std::move(u));
                if(u) fail("ownership", "the unique_ptr still owns what was taken from it");
                model_free(x);
                x.p = p;
                x.owned = p != nullptr;
                x.tag = tag;
                break;
            }
            case 5:
            {
                Obj* p = fresh(n);
                s[a] = std::make_unique<P>(p, true);
                model_free(x);
                x.p = p;
                x.owned = true;
                retag(a);
                break;
            }
            case 6:
            {
                std::unique_ptr<Elem, D> u(draw(5) == 4 ? nullptr : fresh(n));
                Obj* p = u.get();
                int tag = 0;
                if constexpr(Stateful)
                    if(p) u.get_deleter().tag = tag = next++; // the deleter comes with the object
                s[a] = std::make_unique<P>(std::move(u));
                if(u) fail("ownership", "the unique_ptr still owns what was taken from it");
                model_free(x);
                x.p = p;
                x.owned = p != nullptr;
                x.tag = tag;
                if(!p || !Stateful) retag(a);
                break;
            }
            case 7:
                if constexpr(!Stateful)
                {
                    bool threw = false;
                    n = Arr ? 1 + (long)draw(3) : 1;
                    World::throw_in = thr ? (int)draw(n) : -1;
                    auto keep = std::make_unique<P>();
                    if(oom) arm_oom(Oom::persistent, 1);
                    try
                    {
                        if constexpr(Arr)
                        {
                            P t = papilio::make_optional_unique<Obj[]>((std::size_t)n);
                            disarm_oom();
                            *keep = std::move(t);
                        }
                        else
                        {
                            P t = papilio::make_optional_unique<Obj>(next);
                            disarm_oom();
                            *keep = std::move(t);
                        }
                    }
                    catch(const CtorThrow&)
                    {
                        threw = true;
                    }
                    catch(const std::bad_alloc&)
                    {
                        threw = true;
                    }
                    disarm_oom();
                    World::throw_in = -1;
                    if(!threw)
                    {
                        if(oom || thr) fail("swallowed", "make_optional_unique succeeded although creating the object failed");
                        if(!keep->get() || !keep->has_ownership()) fail("ownership", "make_optional_unique returned a pointer that owns nothing");
                        blocks[keep->get()] = n;
                        if(!Arr && (*keep).get()->v != next) fail("pointer", "make_optional_unique lost its argument");
                        model_free(x);
                        x.p = keep->get();
                        x.owned = true;
                        s[a] = std::move(keep);
                    }
                }
                break;
            case 8:
                if(a == b) break;
                s[a] = std::make_unique<P>(std::as_const(*s[b]));
                model_free(x);
                x.p = m[b].p;
                x.owned = false;
                retag(a);
                break;
            case 9:
                if(a == b) break;
                s[a] = std::make_unique<P>(std::move(*s[b]));
                model_free(x);
                x = m[b];
                m[b].p = nullptr;
                m[b].owned = false;
                retag(b);
                break;
            case 10:
                // a pointer that is about to free the very object it is to refer to is the caller's error
                if(a != b && m[a].owned && m[a].p == m[b].p) break;
                *s[a] = std::as_const(*s[b]);
                if(a == b) break;
                model_free(x);
                x.p = m[b].p;
                x.owned = false;
                break;
            case 11:
                if(a != b && m[a].owned && m[a].p == m[b].p) break;
                *s[a] = std::move(*s[b]);
                if(a == b) break;
                model_free(x);
                x = m[b];
                m[b].p = nullptr;
                m[b].owned = false;
                retag(b);
                break;
            case 12:
                s[a]->swap(*s[b]);
                if(a != b) std::swap(m[a], m[b]);
                break;
            case 13:
            {
                Obj* p = s[a]->release();
                if(p != x.p) fail("pointer", "release() returned another pointer");
                if(p && x.owned) external.push_back(p);
                x.p = nullptr;
                x.owned = false;
                break;
            }
            case 14:
                s[a].reset();
                model_free(x);
                s[a] = std::make_unique<P>();
                retag(a);
                break;
            case 15:
                s[a] = std::make_unique<P>(static_cast<Obj*>(nullptr), true);
                model_free(x);
                retag(a);
                break;
            case 16:
                s[a]->reset(static_cast<Obj*>(nullptr), true);
                model_free(x);
                break;
            case 17:
                if constexpr(!Arr)
                {
                    Obj* p = fresh(n);
                    external.push_back(p);
                    s[a] = std::make_unique<P>(P::pointer_to(*p));
                    model_free(x);
                    x.p = p;
                    x.owned = false;
                    retag(a);
                }
                break;
            }
            Harness h;
            verify(name);
        }
        for(int i = 0; i < S; ++i)
        {
            s[i].reset();
            model_free(m[i]);
            s[i] = std::make_unique<P>();
            m[i] = Slot{};
        }
        {
            Harness h;
            verify("destruction");
        }
        for(int i = 0; i < S; ++i) s[i].reset();
        for(Obj* p : external)
        {
            if constexpr(Arr) delete[] p;
            else delete p;
        }
        if(World::count) fail("leak", "%ld objects alive at the end", World::count);
    }
};

void run()
{
    World::alive.clear();
    World::freed_by.clear();
    World::count = 0;
    World::throw_in = -1;
    nontrivial();
    switch(draw(4))
    {
    case 0: Machine<false, false>{}.go(); break;
    case 1: Machine<false, true>{}.go(); break;
    case 2: Machine<true, false>{}.go(); break;
    case 3: Machine<true, true>{}.go(); break;
    }
}
} // namespace

const Property sim::property = {
    "C09", run, 800000, 8000000, 4000000,
    "random ownership histories over four optional_unique_ptr slots (single object and array, stateless and stateful deleter), with failing allocations and throwing constructors inside make_optional_unique; every history is checked against an ownership ledger after each operation",
    "papilio/memory.hpp",
    "pointee type, deleters, operator new",
    false, // harness containers live in the Sut scope; the ledger counts every object
};
