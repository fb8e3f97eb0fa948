// C07: small_vector is std::vector, also when memory runs out or elements throw.
// SIM: src=container.cpp
#include "sim.hpp"
#include "elem.hpp"
#include <papilio/container.hpp>
#include <algorithm>
#include <list>
#include <memory>
#include <vector>

using namespace sim;

namespace
{
// an allocator that audits allocate/deallocate pairing and construct/destroy
template <typename T>
struct AuditAlloc
{
    using value_type = T;
    AuditAlloc() = default;
    template <typename U>
    AuditAlloc(const AuditAlloc<U>&) noexcept {}
    T* allocate(std::size_t n)
    {
        probe("audited allocate");
        auto* p = static_cast<std::size_t*>(::operator new(n * sizeof(T) + 16));
        p[0] = n;
        return reinterpret_cast<T*>(p + 2);
    }
    void deallocate(T* q, std::size_t n)
    {
        auto* p = reinterpret_cast<std::size_t*>(q) - 2;
        if(p[0] != n) die("alloc-size-mismatch", "deallocate() was given another size than allocate()");
        ::operator delete(p);
    }
    friend bool operator==(const AuditAlloc&, const AuditAlloc&) noexcept { return true; }
};

int g_next = 1;

// an input range whose iterator may throw while being read
struct IterThrow
{
};
struct Feed
{
    const std::vector<int>* v;
    std::size_t throw_at;
};
template <typename E>
struct FeedIt
{
    using iterator_category = std::input_iterator_tag;
    using iterator_concept = std::input_iterator_tag;
    using value_type = E;
    using difference_type = std::ptrdiff_t;
    using pointer = const E*;
    using reference = E;
    const Feed* f = nullptr;
    std::size_t i = 0;
    E operator*() const
    {
        if(i == f->throw_at)
        {
            {
                Harness h;
                fault("throwing-iterator");
                ev("  ! source iterator throws at %zu", i);
            }
            throw IterThrow{};
        }
        return Val<E>::make((*f->v)[i]);
    }
    FeedIt& operator++()
    {
        ++i;
        return *this;
    }
    FeedIt operator++(int)
    {
        auto t = *this;
        ++i;
        return t;
    }
    friend bool operator==(const FeedIt& a, const FeedIt& b) { return a.i == b.i; }
};
template <typename E>
struct FeedRange
{
    Feed f;
    FeedIt<E> begin() const { return {&f, 0}; }
    FeedIt<E> end() const { return {&f, f.v->size()}; }
};

template <typename E, std::size_t N, typename A>
struct Machine
{
    using SV = papilio::small_vector<E, N, A>;
    using V = Val<E>;
    std::unique_ptr<SV> v[2];
    std::vector<int> m[2];

    std::vector<int> contents(const SV& s)
    {
        std::vector<int> r;
        for(auto it = s.begin(); it != s.end(); ++it) r.push_back(V::of(*it));
        return r;
    }
    static std::string str(const std::vector<int>& x)
    {
        std::string s = "[";
        for(std::size_t i = 0; i < x.size() && i < 40; ++i) s += (i ? "," : "") + std::to_string(x[i]);
        return s + "]";
    }
    void invariants(const char* op)
    {
        long total = 0;
        for(int i = 0; i < 2; ++i)
        {
            SV& s = *v[i];
            const SV& c = s;
            total += (long)s.size();
            if(s.size() > s.capacity()) fail("size-over-capacity", "%s: size %zu > capacity %zu", op, s.size(), s.capacity());
            if(s.capacity() < SV::static_capacity()) fail("capacity-shrunk", "%s: capacity %zu below the static capacity", op, s.capacity());
            if(s.dynamic_allocated() != (s.capacity() > SV::static_capacity())) fail("storage-flag", "%s: dynamic_allocated()=%d with capacity %zu, static %zu", op, (int)s.dynamic_allocated(), s.capacity(), SV::static_capacity());
            if(s.empty() != (s.size() == 0) || (std::size_t)(s.end() - s.begin()) != s.size() || s.data() != s.begin() || c.begin() != c.data() || c.data() != s.data() || c.end() != s.end() || c.cbegin() != c.begin() || c.cend() != c.end() || c.crbegin() != c.rbegin() || c.crend() != c.rend() || s.max_size() < s.capacity()) fail("accessors", "%s: empty/size/begin/end disagree", op);
            std::vector<int> back;
            for(auto it = c.rbegin(); it != c.rend(); ++it) back.push_back(V::of(*it));
            std::reverse(back.begin(), back.end());
            std::vector<int> forth;
            for(auto it = s.rend(); it != s.rbegin();) forth.push_back(V::of(*--it));
            if(back != contents(s) || forth != back) fail("accessors", "%s: reverse iteration disagrees", op);
            for(std::size_t k = 0; k < s.size(); ++k)
                if(&s[k] != &s.at(k) || &s[k] != s.data() + k || &c[k] != &c.at(k)) fail("accessors", "%s: [] and at disagree", op);
            if(s.size() && (&s.front() != s.data() || &s.back() != s.data() + s.size() - 1 || &c.front() != c.data() || &c.back() != c.data() + s.size() - 1)) fail("accessors", "%s: front/back", op);
            bool oor = false;
            try
            {
                if(u64 k = draw(6); k & 1) (void)c.at(s.size() + k / 2);
                else (void)s.at(s.size() + k / 2);
            }
            catch(const std::out_of_range&)
            {
                oor = true;
            }
            if(!oor) fail("accessors", "%s: at() past the end did not throw", op);
        }
        if constexpr(requires(E e) { e.magic; })
            if(ElemWorld::live != total) fail("element-count", "%s: %ld elements alive, containers hold %ld (leaked or lost element)", op, ElemWorld::live, total);
        for(int i = 0; i < 2; ++i) mix_bytes(m[i].data(), m[i].size() * sizeof(int));
        mark_state(m[0].size() * 1000003 + m[1].size() * 1009 + v[0]->capacity() * 131 + v[1]->capacity() * 7 + v[0]->dynamic_allocated() * 2 + v[1]->dynamic_allocated());
    }

    void go()
    {
        {
            Sut s;
            v[0] = std::make_unique<SV>();
            v[1] = std::make_unique<SV>();
        }
        const u64 faultiness = draw(4); // 0: fault-free run
        const int nops = 1 + (int)draw(24);
        for(int step = 0; step < nops; ++step)
        {
            op_begin();
            int a = (int)draw(2), b = 1 - a;
            SV& s = *v[a];
            std::vector<int>& x = m[a];
            int op = (int)draw(28);
            // the intended result, computed on the model first
            std::vector<int> want[2] = {m[0], m[1]};
            std::vector<int>& w = want[a];
            const std::size_t n = x.size();
            std::size_t pos = n ? draw(n + 1) : 0, idx = n ? draw(n) : 0;
            std::vector<int> src;
            auto gen_src = [&]
            {
                std::size_t k = skewed(12);
                for(std::size_t i = 0; i < k; ++i) src.push_back(g_next++);
            };
            int val = g_next++;
            std::size_t count = 0;
            bool strong_oom = true; // contents unchanged when only an allocation failed
            bool strong_elem = false; // ... also when an element operation failed (nothrow moves)
            const char* name = "";
            Feed feed{&src, (std::size_t)-1};
            switch(op)
            {
            case 0: name = "push_back(const&)"; w.push_back(val); strong_elem = true; break;
            case 1: name = "push_back(&&)"; w.push_back(val); strong_elem = true; break;
            case 2: name = "emplace_back"; w.push_back(val); strong_elem = true; break;
            case 3: name = "insert(const&)"; w.insert(w.begin() + pos, val); break;
            case 4: name = "insert(&&)"; w.insert(w.begin() + pos, val); break;
            case 5: name = "emplace"; w.insert(w.begin() + pos, val); break;
            case 6: name = "append_range(vector)"; gen_src(); w.insert(w.end(), src.begin(), src.end()); break;
            case 7: name = "append_range(list)"; gen_src(); w.insert(w.end(), src.begin(), src.end()); strong_oom = false; break;
            case 8: name = "append_range(input)"; gen_src(); w.insert(w.end(), src.begin(), src.end()); strong_oom = false; if(faultiness && draw(4) == 3 && src.size()) feed.throw_at = draw(src.size()); break;
            case 9: name = "assign(iterators)"; gen_src(); w = src; strong_oom = false; break;
            case 10: name = "assign(list)"; w = {val, val, val}; strong_oom = false; break;
            case 11: name = "assign_range"; gen_src(); w = src; strong_oom = false; if(faultiness && draw(4) == 3 && src.size()) feed.throw_at = draw(src.size()); break;
            case 12: name = "copy construct"; want[b] = x; break;
            case 13: name = "move construct"; want[b] = x; want[a].clear(); break;
            case 14: name = "copy assign"; want[b] = x; strong_oom = false; break;
            case 15: name = "move assign"; want[b] = x; want[a].clear(); break;
            case 16: name = "self assign"; break;
            case 17: name = "swap"; std::swap(want[0], want[1]); break;
            case 18: name = "resize(n,val)"; count = skewed(14); w.resize(count, val); strong_elem = false; break;
            case 19: name = "resize(n)"; count = skewed(14); w.resize(count, 0); break;
            case 20: name = "reserve"; count = skewed(40); strong_elem = true; break;
            case 21: name = "shrink_to_fit"; strong_elem = true; break;
            case 22: name = "pop_back"; if(!n) continue; w.pop_back(); break;
            case 23: name = "clear"; w.clear(); break;
            case 24: name = "push_back(own element)"; if(!n) continue; w.push_back(x[idx]); strong_elem = true; break;
            case 25: name = "insert(own element)"; if(!n) continue; w.insert(w.begin() + pos, x[idx]); break;
            case 26: name = "resize(n, own element)"; if(!n) continue; count = skewed(14); if(count < n) continue; w.resize(count, x[idx]); break;
            case 27: name = "construct(iterators)"; gen_src(); want[b] = src; break;
            }
            // resize(n) must value-initialise: model uses 0
            bool arm_e = faultiness && draw(4) == 3;
            u64 ek = arm_e ? skewed(16) : 0;
            bool arm_a = faultiness && draw(3) == 2;
            u64 ak = arm_a ? 1 + draw(3) : 0;
            ev("%s v%d n=%zu pos=%zu idx=%zu cnt=%zu src=%zu%s%s", name, a, n, pos, idx, count, src.size(), arm_e ? " [element fault]" : "", arm_a ? " [alloc fault]" : "");
            std::unique_ptr<SV> fresh;
            std::vector<E> vsrc;
            std::list<E> lsrc;
            for(int i : src) vsrc.push_back(V::make(i)), lsrc.push_back(V::make(i));
            if(op != 6 && op != 9 && op != 27) vsrc.clear();
            if(op != 7) lsrc.clear();
            bool threw = false, oom = false;
            const char* ex = "";
            long extra;
            {
                alignas(E) unsigned char tmpmem[sizeof(E)];
                E* tmp = ::new(tmpmem) E(V::make(val));
                if(arm_e) ElemWorld::arm(ek);
                if(arm_a) arm_oom(draw(2) ? Oom::persistent : Oom::once, ak);
                try
                {
                    Sut guard;
                    switch(op)
                    {
                    case 0: s.push_back(*tmp); break;
                    case 1: s.push_back(std::move(*tmp)); break;
                    case 2:
                    {
                        E& r = s.emplace_back(V::make(val));
                        if(&r != &s.back()) fail("accessors", "emplace_back returned a reference to another element");
                        break;
                    }
                    case 3:
                    {
                        auto it = s.insert(s.cbegin() + pos, *tmp);
                        if((std::size_t)(it - s.begin()) != pos) fail("accessors", "insert returned the wrong position");
                        break;
                    }
                    case 4:
                    {
                        auto it = s.insert(s.cbegin() + pos, std::move(*tmp));
                        if((std::size_t)(it - s.begin()) != pos) fail("accessors", "insert returned the wrong position");
                        break;
                    }
                    case 5:
                    {
                        auto it = s.emplace(s.cbegin() + pos, V::make(val));
                        if((std::size_t)(it - s.begin()) != pos) fail("accessors", "emplace returned the wrong position");
                        break;
                    }
                    case 6: s.append_range(vsrc); break;
                    case 7: s.append_range(lsrc); break;
                    case 8: s.append_range(FeedRange<E>{feed}); break;
                    case 9: s.assign(vsrc.begin(), vsrc.end()); break;
                    case 10: s.assign({*tmp, *tmp, *tmp}); break;
                    case 11: s.assign_range(FeedRange<E>{feed}); break;
                    case 12: fresh = std::make_unique<SV>(std::as_const(s)); break;
                    case 13: fresh = std::make_unique<SV>(std::move(s)); break;
                    case 14: *v[b] = std::as_const(s); break;
                    case 15: *v[b] = std::move(s); break;
                    case 16:
                    {
                        SV& alias = s;
                        s = alias;
                        break;
                    }
                    case 17:
                        if(draw(2)) s.swap(*v[b]);
                        else swap(*v[b], s);
                        break;
                    case 18: s.resize(count, *tmp); break;
                    case 19: s.resize(count); break;
                    case 20: s.reserve(count); break;
                    case 21: s.shrink_to_fit(); break;
                    case 22: s.pop_back(); break;
                    case 23: s.clear(); break;
                    case 24: s.push_back(s[idx]); break;
                    case 25: s.insert(s.cbegin() + pos, s[idx]); break;
                    case 26: s.resize(count, s[idx]); break;
                    case 27: fresh = std::make_unique<SV>(vsrc.begin(), vsrc.end()); break;
                    }
                }
                catch(const ElemThrow&)
                {
                    threw = true;
                    ex = "ElemThrow";
                }
                catch(const IterThrow&)
                {
                    threw = true;
                    ex = "IterThrow";
                }
                catch(const std::bad_alloc&)
                {
                    threw = oom = true;
                    ex = "bad_alloc";
                }
                disarm_oom();
                ElemWorld::disarm();
                tmp->~E();
                vsrc.clear();
                lsrc.clear();
                extra = 0;
            }
            (void)extra;
            ev("  -> %s", threw ? ex : "ok");
            if(!threw)
            {
                if(oom_fired() && arm_a && op != 12 && op != 13 && op != 27)
                    if(!std::is_same_v<E, std::string>) fail("swallowed-oom", "%s: an allocation failed but the operation reported success", name);
                if(fresh)
                {
                    Sut guard;
                    v[b] = std::move(fresh);
                }
                m[0] = want[0];
                m[1] = want[1];
                for(int i = 0; i < 2; ++i)
                {
                    auto c = contents(*v[i]);
                    if(c != m[i]) fail("content", "%s on v%d: v%d holds %s, std::vector would hold %s", name, a, i, str(c).c_str(), str(m[i]).c_str());
                }
                if(op == 20 && v[a]->capacity() < count) fail("capacity", "reserve(%zu) left capacity %zu", count, v[a]->capacity());
                if(op == 21 && v[a]->capacity() != std::max(n, SV::static_capacity())) fail("capacity", "shrink_to_fit with %zu elements left capacity %zu", n, v[a]->capacity());
                if((op == 13 || op == 15) && v[a]->dynamic_allocated()) fail("moved-from", "a moved-from small_vector still owns dynamic storage");
            }
            else
            {
                probe(oom ? "operation failed for lack of memory" : "operation failed by an element or iterator throw");
                fresh.reset();
                const std::vector<int> old[2] = {m[0], m[1]};
                const bool pure_oom = oom && !std::is_same_v<E, std::string>;
                for(int i = 0; i < 2; ++i)
                {
                    auto c = contents(*v[i]);
                    bool unchanged = c == m[i];
                    bool must = pure_oom ? strong_oom || (i == b && op != 14 && op != 13 && op != 15 && op != 17)
                              : oom      ? false
                                         : strong_elem && V::nothrow_move;
                    if(pure_oom && op >= 13 && op <= 15 && op != 14) must = true; // moving never allocates
                    if(must && !unchanged) fail("not-strong", "%s failed with %s but v%d changed from %s to %s", name, ex, i, str(m[i]).c_str(), str(c).c_str());
                    // a failed append never disturbs what was there
                    if(!unchanged && i == a && (op <= 2 || (op >= 6 && op <= 8) || op == 18 || op == 19 || op == 26 || op == 24) && V::nothrow_move)
                    {
                        if(c.size() < m[i].size() || !std::equal(m[i].begin(), m[i].end(), c.begin())) fail("prefix-lost", "%s failed with %s and disturbed existing elements: %s -> %s", name, ex, str(m[i]).c_str(), str(c).c_str());
                        for(std::size_t k = m[i].size(); k < c.size(); ++k)
                            if(k >= want[i].size() || c[k] != want[i][k]) fail("prefix-lost", "%s failed and left element %zu = %d", name, k, c[k]);
                    }
                    // basic guarantee: only values that were there, were being added, or moved-from
                    for(int q : c)
                    {
                        bool known = q == V::moved || q == 0 || q == val || std::count(old[0].begin(), old[0].end(), q) || std::count(old[1].begin(), old[1].end(), q) || std::count(src.begin(), src.end(), q);
                        if(!known) fail("garbage", "%s failed and left value %d in v%d", name, q, i);
                    }
                    m[i] = c;
                }
            }
            invariants(name);
        }
        {
            Sut s;
            v[0].reset();
            v[1].reset();
        }
        if constexpr(requires(E e) { e.magic; })
            if(ElemWorld::live != 0) fail("element-count", "%ld elements alive after destruction", ElemWorld::live);
    }
};

void run()
{
    ElemWorld::reset();
    g_next = 1;
    u64 k = draw(9);
    ev("type %d", (int)k);
    switch(k)
    {
    case 0: Machine<int, 4, std::allocator<int>>{}.go(); break;
    case 1: Machine<Elem<true>, 4, std::allocator<Elem<true>>>{}.go(); break;
    case 2: Machine<Elem<false>, 4, std::allocator<Elem<false>>>{}.go(); break;
    case 3: Machine<std::string, 3, std::allocator<std::string>>{}.go(); break;
    case 4: Machine<Elem<true>, 1, std::allocator<Elem<true>>>{}.go(); break;
    case 5: Machine<Elem<true>, 0, std::allocator<Elem<true>>>{}.go(); break;
    case 6: Machine<Elem<true>, 8, AuditAlloc<Elem<true>>>{}.go(); break;
    case 7: Machine<Elem<false>, 2, AuditAlloc<Elem<false>>>{}.go(); break;
    case 8: Machine<int, 2, AuditAlloc<int>>{}.go(); break;
    }
}
} // namespace

const Property sim::property = {
    "C07", run, 600000, 20000000, 20'000'000,
    "one run = up to 24 operations of 28 kinds on two small_vectors of one of nine element/capacity/allocator combinations, allocation failures and throwing element operations or source iterators at random points; non-trivial = at least one injected fault fired",
    "papilio::small_vector, std::allocator",
    "element types, source iterators, the audited allocator, operator new/delete"};
