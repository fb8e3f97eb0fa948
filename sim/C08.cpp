// C08: fixed_vector and fixed_flat_map keep their bound, their order and their
// elements, also when an element, a comparator or an allocation fails.
// SIM: src=container.cpp
#include "sim.hpp"
#include "elem.hpp"
#include <papilio/container.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <stdexcept>
#include <vector>

using namespace sim;

namespace
{
int g_next = 1;

std::string str(const std::vector<int>& x)
{
    std::string s = "[";
    for(std::size_t i = 0; i < x.size() && i < 40; ++i) s += (i ? "," : "") + std::to_string(x[i]);
    return s + "]";
}

template <typename E, std::size_t N>
struct VecMachine
{
    using FV = papilio::fixed_vector<E, N>;
    using V = Val<E>;
    std::unique_ptr<FV> v[2];
    std::vector<int> m[2];

    std::vector<int> contents(const FV& s)
    {
        std::vector<int> r;
        for(auto it = s.begin(); it != s.end(); ++it) r.push_back(V::of(*it));
        return r;
    }
    void invariants(const char* op)
    {
        long total = 0;
        for(int i = 0; i < 2; ++i)
        {
            FV& s = *v[i];
            const FV& c = s;
            total += (long)s.size();
            if(s.size() > N || s.capacity() != N || s.max_size() != N) fail("bound", "%s: size %zu, capacity %zu, bound %zu", op, s.size(), s.capacity(), N);
            if(s.empty() != (s.size() == 0) || (std::size_t)(s.end() - s.begin()) != s.size() || s.data() != s.begin() || c.cend() - c.cbegin() != s.end() - s.begin()) fail("accessors", "%s: empty/size/begin/end disagree", op);
            const char* lo = (const char*)&s;
            if(s.size() && ((const char*)s.data() < lo || (const char*)(s.data() + s.size()) > lo + sizeof(s))) fail("accessors", "elements live outside the object");
            for(std::size_t k = 0; k < s.size(); ++k)
                if(&s[k] != &s.at(k) || &s[k] != s.data() + k || &c[k] != &c.at(k)) fail("accessors", "%s: [] and at disagree", op);
            if(s.size() && (&s.front() != s.data() || &s.back() != s.data() + s.size() - 1 || &c.front() != c.data() || &c.back() != c.data() + s.size() - 1)) fail("accessors", "%s: front/back", op);
            for(int k = 0; k < 2; ++k)
            {
                bool oor = false;
                try
                {
                    if(k) (void)s.at(s.size() + draw(3));
                    else (void)c.at(s.size() + draw(3));
                }
                catch(const std::out_of_range&)
                {
                    oor = true;
                }
                if(!oor) fail("accessors", "%s: at() past the end did not throw", op);
            }
        }
        if constexpr(requires(E e) { e.magic; })
            if(ElemWorld::live != total) fail("element-count", "%s: %ld elements alive, containers hold %ld (leaked or lost element)", op, ElemWorld::live, total);
        for(int i = 0; i < 2; ++i) mix_bytes(m[i].data(), m[i].size() * sizeof(int));
        mark_state(m[0].size() * 1009 + m[1].size() * 17 + N);
    }
    void go()
    {
        {
            Sut s;
            v[0] = std::make_unique<FV>();
            v[1] = std::make_unique<FV>();
        }
        const u64 faultiness = draw(4);
        const int nops = 1 + (int)draw(24);
        for(int step = 0; step < nops; ++step)
        {
            op_begin();
            int a = (int)draw(2), b = 1 - a;
            FV& s = *v[a];
            std::vector<int>& x = m[a];
            const std::vector<int> old[2] = {m[0], m[1]};
            std::vector<int> want[2] = {m[0], m[1]};
            std::vector<int>& w = want[a];
            const std::size_t n = x.size();
            std::size_t pos = n ? draw(n + 1) : 0, idx = n ? draw(n) : 0;
            int val = g_next++;
            std::size_t count = 0;
            const char* name = "";
            int op = (int)draw(14);
            bool grows = true;
            switch(op)
            {
            case 0: name = "push_back(const&)"; w.push_back(val); break;
            case 1: name = "push_back(&&)"; w.push_back(val); break;
            case 2: name = "emplace_back"; w.push_back(val); break;
            case 3: name = "insert(const&)"; w.insert(w.begin() + pos, val); break;
            case 4: name = "insert(&&)"; w.insert(w.begin() + pos, val); break;
            case 5: name = "emplace"; w.insert(w.begin() + pos, val); break;
            case 6: name = "insert(own element)"; if(!n) continue; w.insert(w.begin() + pos, x[idx]); break;
            case 7: name = "push_back(own element)"; if(!n) continue; w.push_back(x[idx]); break;
            case 8: name = "pop_back"; if(!n) continue; w.pop_back(); grows = false; break;
            case 9: name = "clear"; w.clear(); grows = false; break;
            case 10: name = "copy construct"; want[b] = x; grows = false; break;
            case 11: name = "move construct"; want[b] = x; grows = false; break;
            case 12: name = "construct(count, value)"; count = draw(N + 1); if(draw(8) == 7) count = N + 1 + draw(3); want[b].assign(count, val); grows = false; break;
            case 13: name = "write through []"; if(!n) continue; w[idx] = val; grows = false; break;
            }
            const bool full = (grows && n == N) || (op == 12 && count > N);
            bool arm_e = faultiness && draw(4) == 3;
            u64 ek = arm_e ? skewed(8) : 0;
            bool arm_a = faultiness && draw(3) == 2;
            u64 ak = arm_a ? 1 + draw(3) : 0;
            ev("%s v%d n=%zu pos=%zu idx=%zu cnt=%zu%s%s", name, a, n, pos, idx, count, arm_e ? " [element fault]" : "", arm_a ? " [alloc fault]" : "");
            std::unique_ptr<FV> fresh;
            bool threw = false, oom = false, len = false;
            const char* ex = "";
            typename FV::iterator ret{};
            bool has_ret = false;
            {
                Sut sut;
                alignas(E) unsigned char tb[sizeof(E)];
                E* tmp = new(tb) E(V::make(val));
                if(arm_e) ElemWorld::arm(ek);
                if(arm_a) arm_oom(draw(2) ? Oom::persistent : Oom::once, ak);
                try
                {
                    switch(op)
                    {
                    case 0: s.push_back(*tmp); break;
                    case 1: s.push_back(std::move(*tmp)); break;
                    case 2:
                    {
                        auto& r = s.emplace_back(*tmp);
                        if(&r != &s.back()) fail("return", "emplace_back returned a reference to something else");
                        break;
                    }
                    case 3: ret = s.insert(s.cbegin() + pos, *tmp); has_ret = true; break;
                    case 4: ret = s.insert(s.cbegin() + pos, std::move(*tmp)); has_ret = true; break;
                    case 5: ret = s.emplace(s.cbegin() + pos, *tmp); has_ret = true; break;
                    case 6: ret = s.insert(s.cbegin() + pos, s[idx]); has_ret = true; break;
                    case 7: s.push_back(s[idx]); break;
                    case 8: s.pop_back(); break;
                    case 9: s.clear(); break;
                    case 10: fresh = std::make_unique<FV>(s); break;
                    case 11: fresh = std::make_unique<FV>(std::move(s)); break;
                    case 12: fresh = std::make_unique<FV>(count, *tmp); break;
                    case 13: s[idx] = *tmp; break;
                    }
                }
                catch(const ElemThrow&)
                {
                    threw = true;
                    ex = "ElemThrow";
                }
                catch(const std::bad_alloc&)
                {
                    threw = oom = true;
                    ex = "bad_alloc";
                }
                catch(const std::length_error&)
                {
                    threw = len = true;
                    ex = "length_error";
                }
                disarm_oom();
                ElemWorld::disarm();
                tmp->~E();
            }
            ev("  -> %s", threw ? ex : "ok");
            if(!threw)
            {
                if(full) fail("bound", "%s on a full fixed_vector<%zu> reported success", name, N);
                if(has_ret && ret != s.begin() + pos) fail("return", "%s returned an iterator to position %td, inserted at %zu", name, ret - s.begin(), pos);
                if(fresh)
                {
                    Sut guard;
                    v[b] = std::move(fresh);
                }
                if(op == 11)
                {
                    // moved-from: any valid state; make it known again
                    want[a] = contents(*v[a]);
                    for(int q : want[a])
                        if(q != V::moved && q != 0 && !std::count(x.begin(), x.end(), q)) fail("garbage", "moved-from vector holds %d", q);
                }
                m[0] = want[0];
                m[1] = want[1];
                for(int i = 0; i < 2; ++i)
                {
                    auto c = contents(*v[i]);
                    if(c != m[i]) fail("content", "%s on v%d: v%d holds %s, std::vector would hold %s", name, a, i, str(c).c_str(), str(m[i]).c_str());
                }
                if(full) probe("full");
            }
            else
            {
                if(len && !full) fail("bound", "%s threw length_error with %zu of %zu elements", name, n, N);
                if(len) probe("refused: full");
                else probe(oom ? "operation failed for lack of memory" : "operation failed by an element throw");
                if(len && n == N) nontrivial();
                fresh.reset();
                for(int i = 0; i < 2; ++i)
                {
                    auto c = contents(*v[i]);
                    const bool must = len || i == b || V::nothrow_move;
                    if(must && c != m[i] && op != 1 && op != 4) fail("not-strong", "%s failed with %s but v%d changed from %s to %s", name, ex, i, str(m[i]).c_str(), str(c).c_str());
                    if(must && c != m[i]) fail("not-strong", "%s failed with %s but v%d changed from %s to %s", name, ex, i, str(m[i]).c_str(), str(c).c_str());
                    for(int q : c)
                        if(q != V::moved && q != 0 && q != val && !std::count(old[0].begin(), old[0].end(), q) && !std::count(old[1].begin(), old[1].end(), q)) fail("garbage", "%s failed and left value %d in v%d", name, q, i);
                    m[i] = c;
                }
            }
            invariants(name);
        }
        {
            Sut s;
            v[0].reset();
            v[1].reset();
        }
        if constexpr(requires(E e) { e.magic; })
            if(ElemWorld::live != 0) fail("element-count", "%ld elements alive after destruction", ElemWorld::live);
    }
};

// a comparator that may throw
template <bool Greater, typename K>
struct Cmp
{
    bool operator()(const K& a, const K& b) const
    {
        ElemWorld::maybe_throw("throwing-comparator");
        return Greater ? b < a : a < b;
    }
};
template <typename K>
struct TCmp
{
    using is_transparent = void;
    static int of(int v) { return v; }
    static int of(const K& k) { return Val<K>::of(k); }
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const
    {
        ElemWorld::maybe_throw("throwing-comparator");
        return of(a) < of(b);
    }
};

template <typename K, typename T, std::size_t N, typename C, bool Greater, bool Transparent>
struct MapMachine
{
    using M = papilio::fixed_flat_map<K, T, N, C>;
    using VK = Val<K>;
    using VT = Val<T>;
    struct Order
    {
        bool operator()(int a, int b) const { return Greater ? b < a : a < b; }
    };
    using Model = std::map<int, int, Order>;
    std::unique_ptr<M> f;
    Model m;

    static Model contents(const M& f, const char* op)
    {
        Model r;
        bool first = true;
        int prev = 0;
        for(auto it = f.begin(); it != f.end(); ++it)
        {
            int k = VK::of(it->first);
            if(!first && !Order{}(prev, k)) fail("order", "%s: key %d stored after key %d", op, k, prev);
            prev = k;
            first = false;
            r[k] = VT::of(it->second);
        }
        return r;
    }
    static std::string str(const Model& m)
    {
        std::string s = "{";
        for(auto& [k, v] : m) s += " " + std::to_string(k) + ":" + std::to_string(v);
        return s + " }";
    }
    void go()
    {
        {
            Sut s;
            f = std::make_unique<M>();
        }
        const u64 faultiness = draw(4);
        const int keys = 1 + (int)draw(2 * N + 2);
        const int nops = 1 + (int)draw(30);
        for(int step = 0; step < nops; ++step)
        {
            op_begin();
            int op = (int)draw(12);
            int k = 1 + (int)draw(keys), val = g_next++;
            bool arm_e = faultiness && draw(4) == 3;
            u64 ek = arm_e ? skewed(12) : 0;
            bool arm_a = faultiness && draw(4) == 3;
            u64 ak = arm_a ? 1 + draw(4) : 0;
            static const char* names[] = {"insert_or_assign", "try_emplace", "find", "const find", "contains", "at", "const at", "lower_bound", "const lower_bound", "copy construct", "try_emplace()", "insert_or_assign(&&)"};
            ev("%s key=%d val=%d size=%zu%s%s", names[op], k, val, m.size(), arm_e ? " [element fault]" : "", arm_a ? " [alloc fault]" : "");
            Model want = m;
            bool present = m.count(k), writes = false, full = false;
            if(op == 0 || op == 11) want[k] = val, writes = true;
            if(op == 1) want.emplace(k, val), writes = true;
            if(op == 10) want.emplace(k, 0), writes = true;
            if(writes && !present && m.size() == N) full = true;
            bool threw = false, len = false, oor = false;
            const char* ex = "";
            std::unique_ptr<M> fresh;
            long pos = -2;
            bool inserted = false, found = false;
            int got = 0;
            {
                Sut sut;
                alignas(K) unsigned char kb[sizeof(K)];
                alignas(T) unsigned char vb[sizeof(T)];
                K* kk = new(kb) K(VK::make(k));
                T* vv = new(vb) T(VT::make(val));
                const M& c = *f;
                if(arm_e) ElemWorld::arm(ek);
                if(arm_a) arm_oom(draw(2) ? Oom::persistent : Oom::once, ak);
                try
                {
                    switch(op)
                    {
                    case 0:
                    case 1:
                    case 10:
                    case 11:
                    {
                        auto r = op == 0 ? f->insert_or_assign(*kk, *vv) : op == 1 ? f->try_emplace(*kk, *vv) : op == 10 ? f->try_emplace(*kk) : f->insert_or_assign(*kk, std::move(*vv));
                        pos = r.first - f->begin();
                        inserted = r.second;
                        break;
                    }
                    case 2:
                    {
                        auto it = f->find(*kk);
                        found = it != f->end();
                        pos = it - f->begin();
                        if constexpr(Transparent)
                            if(f->find(k) != it) fail("lookup", "find by a compatible key differs");
                        break;
                    }
                    case 3:
                    {
                        auto it = c.find(*kk);
                        found = it != c.end();
                        pos = it - c.begin();
                        if constexpr(Transparent)
                            if(c.find(k) != it) fail("lookup", "find by a compatible key differs");
                        break;
                    }
                    case 4:
                        found = c.contains(*kk);
                        if constexpr(Transparent)
                            if(c.contains(k) != found) fail("lookup", "contains by a compatible key differs");
                        break;
                    case 5: got = VT::of(f->at(*kk)); break;
                    case 6: got = VT::of(c.at(*kk)); break;
                    case 7: pos = f->lower_bound(*kk) - f->begin(); break;
                    case 8:
                        pos = c.lower_bound(*kk) - c.begin();
                        if constexpr(Transparent)
                            if(c.lower_bound(k) - c.begin() != pos) fail("lookup", "lower_bound by a compatible key differs");
                        break;
                    case 9: fresh = std::make_unique<M>(c); break;
                    }
                }
                catch(const ElemThrow&)
                {
                    threw = true;
                    ex = "ElemThrow";
                }
                catch(const std::bad_alloc&)
                {
                    threw = true;
                    ex = "bad_alloc";
                }
                catch(const std::length_error&)
                {
                    threw = len = true;
                    ex = "length_error";
                }
                catch(const std::out_of_range&)
                {
                    threw = oor = true;
                    ex = "out_of_range";
                }
                disarm_oom();
                ElemWorld::disarm();
                vv->~T();
                kk->~K();
            }
            ev("  -> %s", threw ? ex : "ok");
            long rank = 0;
            for(auto& [q, _] : m) rank += Order{}(q, k);
            if(oor)
            {
                if(present || (op != 5 && op != 6)) fail("lookup", "%s of a present key threw out_of_range", names[op]);
                probe("absent key: out_of_range");
            }
            if(len)
            {
                if(!full) fail("bound", "%s threw length_error with %zu of %zu entries, key %s", names[op], m.size(), N, present ? "present" : "absent");
                probe("refused: full");
                nontrivial();
            }
            if(!threw)
            {
                if(full) fail("bound", "%s of a new key into a full map reported success", names[op]);
                if(writes && inserted == present) fail("return", "%s reported inserted=%d", names[op], (int)inserted);
                if(writes && pos != rank) fail("return", "%s returned position %ld, the key is number %ld", names[op], pos, rank);
                if((op == 2 || op == 3 || op == 4) && found != present) fail("lookup", "%s(%d): %s, but %s", names[op], k, found ? "found" : "not found", str(m).c_str());
                if((op == 2 || op == 3) && pos != (present ? rank : (long)m.size())) fail("lookup", "%s(%d) returned position %ld", names[op], k, pos);
                if(op == 5 || op == 6)
                {
                    if(!present) fail("lookup", "at() of an absent key did not throw");
                    if(got != m[k]) fail("lookup", "at(%d) gave %d, expected %d", k, got, m[k]);
                }
                if((op == 7 || op == 8) && pos != rank) fail("lookup", "lower_bound(%d) returned position %ld, expected %ld", k, pos, rank);
                m = want;
                if(fresh)
                {
                    Sut guard;
                    f = std::move(fresh);
                }
                auto c = contents(*f, names[op]);
                if(c != m || f->size() != m.size()) fail("content", "%s: map holds %s, expected %s", names[op], str(c).c_str(), str(m).c_str());
            }
            else
            {
                if(!len && !oor) probe("operation failed half-way");
                fresh.reset();
                if(VK::nothrow_move && VT::nothrow_move)
                {
                    auto c = contents(*f, names[op]);
                    // assigning over an existing value may leave that value in any valid state
                    if((op == 0 || op == 11) && present && !len && c.count(k) && c[k] != m[k]) m[k] = c[k];
                    if(c != m || f->size() != m.size()) fail("not-strong", "%s failed with %s and changed %s to %s", names[op], ex, str(m).c_str(), str(c).c_str());
                }
                else if(writes && !len && !oor)
                {
                    // a throwing move in the middle of a shift: only destruction is guaranteed
                    Sut s;
                    f = std::make_unique<M>();
                    m.clear();
                }
                else
                {
                    auto c = contents(*f, names[op]);
                    if(c != m) fail("not-strong", "%s failed with %s and changed %s to %s", names[op], ex, str(m).c_str(), str(c).c_str());
                }
            }
            if(f->size() > N || f->empty() != m.empty() || f->max_size() != N) fail("bound", "size %zu of %zu", f->size(), N);
            long expect = 0;
            if constexpr(requires(K e) { e.magic; }) expect += (long)m.size();
            if constexpr(requires(T e) { e.magic; }) expect += (long)m.size();
            if(ElemWorld::live != expect) fail("element-count", "%s: %ld elements alive, expected %ld", names[op], ElemWorld::live, expect);
            for(auto& [q, w] : m) mix(q * 1000003ull + w);
            u64 h = 0;
            for(auto& [q, _] : m) h = h * 31 + q;
            mark_state(h * 64 + N);
        }
        {
            Sut s;
            f.reset();
        }
        if(ElemWorld::live) fail("element-count", "%ld elements alive after destruction", ElemWorld::live);
    }
};

void run()
{
    ElemWorld::reset();
    g_next = 1;
    switch(draw(14))
    {
    case 0: VecMachine<int, 6>{}.go(); break;
    case 1: VecMachine<Elem<true>, 1>{}.go(); break;
    case 2: VecMachine<Elem<true>, 5>{}.go(); break;
    case 3: VecMachine<Elem<false>, 5>{}.go(); break;
    case 4: VecMachine<std::string, 4>{}.go(); break;
    case 5: VecMachine<Elem<true>, 9>{}.go(); break;
    case 6: VecMachine<std::string, 2>{}.go(); break;
    case 7: MapMachine<int, Elem<true>, 4, Cmp<false, int>, false, false>{}.go(); break;
    case 8: MapMachine<Elem<true>, Elem<true>, 6, Cmp<true, Elem<true>>, true, false>{}.go(); break;
    case 9: MapMachine<Elem<true>, int, 8, TCmp<Elem<true>>, false, true>{}.go(); break;
    case 10: MapMachine<std::string, std::string, 5, TCmp<std::string>, false, true>{}.go(); break;
    case 11: MapMachine<int, std::string, 1, Cmp<false, int>, false, false>{}.go(); break;
    case 12: MapMachine<Elem<true>, Elem<false>, 5, Cmp<false, Elem<true>>, false, false>{}.go(); break;
    case 13: MapMachine<int, int, 7, std::less<>, false, false>{}.go(); break;
    }
}
} // namespace

const Property sim::property = {
    "C08", run, 400000, 8000000, 4000000,
    "random operation sequences on fixed_vector (capacities 1-9; int, std::string, audited nothrow-move and throwing-move elements) and fixed_flat_map (transparent, plain, reversed, throwing comparators), each operation with an independently drawn throw-at-the-kth element/comparator call or failing allocation; non-trivial = a fault fired or a full container refused an element",
    "papilio/container.hpp (fixed_vector, fixed_flat_map), src/container.cpp",
    "element types, comparators, operator new",
};
