// C16: a dynamic argument store keeps its arguments alive, findable and intact.
#include "fmtwork.hpp"
#include <deque>
#include <list>
#include <memory>
#include <optional>

using namespace sim;
using namespace fw;

namespace
{
template <typename C>
struct World
{
    using S = std::basic_string<C>;
    using V = std::basic_string_view<C>;
    using Ctx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
    using Store = papilio::basic_dynamic_format_args<Ctx, C>;
    using Arg = papilio::basic_format_arg<Ctx>;
    using Ref = papilio::basic_format_args_ref<Ctx, C>;
    using Idx = papilio::basic_indexing_value<C>;

    // values the stores may refer to; they stay put for the whole run
    std::list<S> strings;
    std::list<Fmt> fmts;
    std::list<Rec<C>> recs;

    // ---- values --------------------------------------------------------------
    struct Made
    {
        std::string text; // what "{}" gives
        int kind;
        bool owned = false; // the argument owns the object behind it
    };
    enum Kind : int
    {
        v_int,
        v_neg,
        v_bool,
        v_char,
        v_double,
        v_text,     // const C*
        v_view,     // string lvalue
        v_own_str,  // string, independent
        v_box_str,  // string_container owning its text
        v_fmt,      // lvalue of a user type
        v_own_fmt,  // user type, independent
        v_small,    // small user type
        v_own_small,
        v_rec,
        v_own_vec,
        v_count
    };
    static constexpr bool is_text(int k) { return k == v_text || k == v_view || k == v_own_str || k == v_box_str; }
    static constexpr bool is_fmt(int k) { return k == v_fmt || k == v_own_fmt; }
    static constexpr bool is_small(int k) { return k == v_small || k == v_own_small; }

    // Everything is drawn first; the library is entered by the second step.
    struct Plan
    {
        int kind;
        long num = 0;
        std::string text;
        S* str = nullptr;
        S own;
        Fmt* fmt = nullptr;
        Rec<C>* rec = nullptr;
        std::vector<int> vec;
    };
    Plan plan()
    {
        Plan p{(int)draw(v_count)};
        p.num = (long)draw(1000);
        std::string w = Pack<C>::words();
        switch(p.kind)
        {
        case v_int: p.text = std::to_string(p.num); break;
        case v_neg: p.text = std::to_string(-p.num * 4000000000L); break;
        case v_bool: p.text = p.num % 2 ? "true" : "false"; break;
        case v_char: p.text = std::string(1, (char)('a' + p.num % 26)); break;
        case v_double: p.text = Pack<C>::num((double)p.num / 4); break;
        case v_text:
        case v_view:
            strings.push_back(W<C>(w));
            p.str = &strings.back();
            p.text = w;
            break;
        case v_own_str:
        case v_box_str:
            p.own = W<C>(w);
            p.text = w;
            break;
        case v_fmt:
        case v_own_fmt:
            fmts.emplace_back(w);
            p.fmt = &fmts.back();
            p.text = "<" + w + ">";
            break;
        case v_small:
        case v_own_small: p.text = "[" + std::to_string(p.num % 10) + "]"; break;
        case v_rec:
            recs.push_back(Rec<C>{W<C>(w), (int)p.num, Fmt(w), {}});
            p.rec = &recs.back();
            p.text = "";
            break;
        case v_own_vec:
            p.vec = {(int)p.num, 2, 3};
            p.text = "[" + std::to_string(p.num) + ", 2, 3]";
            break;
        }
        return p;
    }
    // calls fn with the value, the way a user would pass it
    template <typename F>
    void with(const Plan& p, F&& fn)
    {
        switch(p.kind)
        {
        case v_int: { int v = (int)p.num; fn(v); break; }
        case v_neg: fn((long long)(-p.num * 4000000000L)); break;
        case v_bool: fn(p.num % 2 == 1); break;
        case v_char: fn((C)('a' + p.num % 26)); break;
        case v_double: fn((double)p.num / 4); break;
        case v_text: fn(p.str->c_str()); break;
        case v_view: fn(*p.str); break;
        case v_own_str: fn(Arg(papilio::independent, p.own)); break;
        case v_box_str: { papilio::utf::basic_string_container<C> b(papilio::independent, V(p.own)); fn(Arg(std::move(b))); break; }
        case v_fmt: fn(*p.fmt); break;
        case v_own_fmt: fn(Arg(papilio::independent, *p.fmt)); break;
        case v_small: fn(SFmt((int)(p.num % 10))); break;
        case v_own_small: fn(Arg(papilio::independent, SFmt((int)(p.num % 10)))); break;
        case v_rec: fn(*p.rec); break;
        case v_own_vec: fn(Arg(papilio::independent, p.vec)); break;
        }
    }
    static bool owns(int k) { return k == v_own_str || k == v_box_str || k == v_own_fmt || k == v_own_vec; }

    // ---- outcome of an operation ------------------------------------------------
    enum Outcome
    {
        normal,
        bad_alloc,
        user,
        out_of_range,
        other
    };
    std::string what;
    template <typename F>
    Outcome guarded(F&& fn)
    {
        try
        {
            fn();
            return normal;
        }
        catch(const UserThrow&)
        {
            return user;
        }
        catch(const std::bad_alloc&)
        {
            return bad_alloc;
        }
        catch(const std::out_of_range& e)
        {
            Harness h;
            what = e.what();
            return out_of_range;
        }
        catch(const std::exception& e)
        {
            Harness h;
            what = e.what();
            return other;
        }
    }

    // ---- stores ---------------------------------------------------------------------
    struct Model
    {
        std::vector<Plan> indexed;
        std::map<std::string, Plan> named;
    };
    static bool usable(const Plan& p) { return p.kind != v_rec; }

    std::string show(const Store& s, const S& fmt)
    {
        S r = papilio::vformat(V(fmt), s);
        return N<C>(V(r));
    }
    void check_store(const Store& s, const Model& m, const char* when)
    {
        if(s.indexed_size() != m.indexed.size()) fail("wrong-count", "%s: indexed_size() is %zu, expected %zu", when, (std::size_t)s.indexed_size(), m.indexed.size());
        if(s.named_size() != m.named.size()) fail("wrong-count", "%s: named_size() is %zu, expected %zu", when, (std::size_t)s.named_size(), m.named.size());
        if(s.indexed().size() != m.indexed.size() || s.named().size() != m.named.size()) fail("wrong-count", "%s: indexed() or named() has a wrong size", when);
        Ref ref(s);
        if(ref.indexed_size() != m.indexed.size() || ref.named_size() != m.named.size()) fail("wrong-count", "%s: a reference to the store has wrong sizes", when);
        S fmt;
        std::string want;
        for(std::size_t i = 0; i < m.indexed.size(); ++i)
        {
            check_arg(s.get(i), m.indexed[i], when);
            if(&s.get(i) != &s.get(Idx((papilio::ssize_t)i)) || &s.get(i) != &ref.get(i) || &s.get(i) != &s.indexed()[i]) fail("lookup", "%s: lookups of argument %zu disagree", when, i);
            if(!s.contains(i) || !ref.contains(i) || !s.contains(Idx((papilio::ssize_t)i))) fail("lookup", "%s: contains(%zu) is false", when, i);
            if(usable(m.indexed[i]))
            {
                fmt += W<C>("{" + std::to_string(i) + "}|");
                want += m.indexed[i].text + "|";
            }
            else
            {
                fmt += W<C>("{" + std::to_string(i) + ".num}|");
                want += std::to_string(m.indexed[i].num) + "|";
            }
        }
        for(auto& [k, p] : m.named)
        {
            S key = W<C>(k);
            check_arg(s.get(V(key)), p, when);
            if(&s.get(V(key)) != &s.get(key.c_str()) || &s.get(V(key)) != &s.get(key) || &s.get(V(key)) != &ref.get(V(key))) fail("lookup", "%s: lookups of argument %s disagree", when, k.c_str());
            if(!s.contains(V(key)) || !s.contains(key.c_str()) || !s.contains(key) || !ref.contains(V(key))) fail("lookup", "%s: contains(%s) is false", when, k.c_str());
            fmt += W<C>("{" + k + (usable(p) ? "}|" : ".num}|"));
            want += (usable(p) ? p.text : std::to_string(p.num)) + "|";
        }
        std::string got = show(s, fmt);
        if(got != want) fail("wrong-value", "%s: the store gives \"%s\" for \"%s\", expected \"%s\"", when, got.c_str(), N<C>(V(fmt)).c_str(), want.c_str());
        // what is not there
        std::size_t n = m.indexed.size();
        if(s.contains(n) || s.contains(n + 7) || s.contains(Idx((papilio::ssize_t)-1)) || ref.contains(n)) fail("lookup", "%s: contains() finds an argument that is not there", when);
        for(auto* k : {"zz", "", "name1x"})
            if(!m.named.count(k) && (s.contains(V(W<C>(k))) || ref.contains(V(W<C>(k))))) fail("lookup", "%s: contains(\"%s\") is true", when, k);
        if(guarded([&] { (void)s.get(n); }) != out_of_range || guarded([&] { (void)ref.get(n); }) != out_of_range || guarded([&] { (void)s.get(Idx((papilio::ssize_t)-1)); }) != out_of_range ||
           guarded([&] { (void)s.get(V(W<C>("zz"))); }) != out_of_range)
            fail("lookup", "%s: a lookup of something not there did not throw out_of_range", when);
    }
    void check_arg(const Arg& a, const Plan& p, const char* when)
    {
        auto bad = [&](const char* how) { fail("wrong-value", "%s: an argument of kind %d (%s) %s", when, p.kind, p.text.c_str(), how); };
        if(a.empty()) bad("is empty");
        if(is_text(p.kind))
        {
            if(!a.template holds<papilio::utf::basic_string_container<C>>()) bad("holds something else");
            V v = get<S>(a).to_string_view();
            if(N<C>(v) != p.text) bad("has another text");
            if(p.kind == v_view && v.data() != p.str->data() && !v.empty()) bad("does not refer to the string given");
        }
        else if(is_fmt(p.kind))
        {
            const Fmt& f = get<Fmt>(a);
            f.check();
            if("<" + f.text + ">" != p.text) bad("has another value");
            if(p.kind == v_fmt && &f != p.fmt) bad("does not refer to the object given");
            if(p.kind == v_own_fmt && &f == p.fmt) bad("refers to the object given although it is to be independent");
        }
        else if(is_small(p.kind))
        {
            const SFmt& f = get<SFmt>(a);
            f.check();
            if(f.v != p.num % 10) bad("has another value");
        }
        else if(p.kind == v_int && get<int>(a) != p.num) bad("has another value");
        else if(p.kind == v_rec && &get<Rec<C>>(a) != p.rec) bad("does not refer to the object given");
        else if(p.kind == v_own_vec && get<std::vector<int>>(a) != p.vec) bad("has another value");
        if((p.kind == v_own_fmt || p.kind == v_own_vec || p.kind == v_own_str) && !a.has_ownership()) bad("does not own its object");
        if((p.kind == v_fmt || p.kind == v_rec) && a.has_ownership()) bad("claims to own an object it refers to");
    }

    void stores()
    {
        std::unique_ptr<Store> s;
        Model m;
        {
            Sut t;
            s = std::make_unique<Store>();
        }
        for(u64 n = range(1, 24), q = 0; q < n; ++q)
        {
            op_begin();
            u64 op = draw(10);
            // faults
            bool oom = chance(1, 3);
            Oom mode = draw(2) ? Oom::persistent : Oom::once;
            u64 k = draw(5);
            bool thr = !oom && chance(1, 4);
            u64 tk = draw(3);
            Outcome o = normal;
            u64 oomed = 0;
            auto body = [&](auto&& fn)
            {
                Points::reset();
                if(thr) Points::arm(tk, k_plain);
                {
                    Sut t;
                    if(oom) arm_oom(mode, k);
                    o = guarded(fn);
                    oomed = oom_fired();
                    disarm_oom();
                }
                Points::armed = false;
                if(oomed || Points::fired) nontrivial();
                if(o == other || o == out_of_range) fail("wrong-exception", "adding an argument threw \"%s\"", what.c_str());
                if(o == bad_alloc && !oomed) fail("spurious", "bad_alloc without a failed allocation");
                if(o == user && !Points::fired) fail("spurious", "user exception out of nowhere");
                if(Points::fired && o == normal) fail("swallowed", "the exception of a copy constructor disappeared");
            };
            if(op <= 4)
            { // one positional argument
                Plan p = plan();
                body([&] { with(p, [&](auto&& v) { s->emplace(std::forward<decltype(v)>(v)); }); });
                ev("emplace kind %d \"%s\" -> %d", p.kind, esc(p.text, 40).c_str(), (int)o);
                if(o == normal) m.indexed.push_back(p);
                mark_state(1000 + (u64)p.kind * 8 + (u64)o);
            }
            else if(op <= 6)
            { // a named one
                Plan p = plan();
                if(p.kind == v_small) p.kind = v_int, p.text = std::to_string(p.num);
                static const char* const names[] = {"a", "b", "name1", "name2", "n_3", "zzz", "a_rather_long_name_for_an_argument"};
                std::string name = pick(names);
                S key = W<C>(name);
                body([&] { with(p, [&](auto&& v) { s->emplace(papilio::arg(key.c_str(), std::forward<decltype(v)>(v))); }); });
                key.assign(key.size(), C('#')); // the store must have its own copy of the name
                ev("emplace %s= kind %d \"%s\" -> %d", name.c_str(), p.kind, esc(p.text, 40).c_str(), (int)o);
                if(o == normal)
                {
                    auto it = m.named.find(name);
                    if(it == m.named.end()) m.named.emplace(name, p);
                    else
                    { // given twice: one of the two must be there
                        probe("name-given-twice");
                        if(!same(*s, name, it->second)) it->second = p;
                    }
                }
                mark_state(2000 + (u64)p.kind * 8 + (u64)o);
            }
            else if(op == 7)
            { // several
                Plan a = plan(), b = plan();
                S key = W<C>(draw(2) ? "x" : "y");
                int c = (int)draw(100);
                std::size_t had = m.indexed.size(), names = m.named.size();
                std::string ks = N<C>(V(key));
                bool known = m.named.count(ks);
                body([&] { with(a, [&](auto&& x) { with(b, [&](auto&& y) { s->append(std::forward<decltype(x)>(x), papilio::arg(key.c_str(), c), std::forward<decltype(y)>(y)); }); }); });
                ev("append 2+1 -> %d", (int)o);
                Plan pc{v_int};
                pc.num = c;
                pc.text = std::to_string(c);
                std::size_t now = s->indexed_size() - had;
                bool has_c = s->named_size() > names;
                if(s->indexed_size() < had || now > 2 || s->named_size() < names || s->named_size() > names + 1) fail("wrong-count", "append changed the sizes from %zu/%zu to %zu/%zu", had, names, (std::size_t)s->indexed_size(), (std::size_t)s->named_size());
                if(o == normal && (now != 2 || (!known && !has_c))) fail("wrong-count", "append lost an argument");
                if((now == 2 && !known && !has_c) || (now < 1 && has_c)) fail("wrong-count", "append added its arguments out of order");
                if(now >= 1) m.indexed.push_back(a);
                if(now >= 2) m.indexed.push_back(b);
                if(has_c) m.named.emplace(ks, pc);
                else if(known && (now >= 1))
                {
                    probe("name-given-twice");
                    if(!same(*s, ks, m.named.at(ks))) m.named.at(ks) = pc;
                }
                mark_state(3000 + (u64)o);
            }
            else if(op == 8)
            {
                {
                    Sut t;
                    s->clear();
                }
                ev("clear");
                m = Model();
                mark_state(4000);
            }
            else
            { // move to a new home
                std::unique_ptr<Store> t2;
                {
                    Sut t;
                    t2 = std::make_unique<Store>(std::move(*s));
                }
                ev("move");
                check_store(*t2, m, "after moving the store");
                if(draw(2))
                { // the old one is reusable
                    Plan p;
                    p.kind = v_int;
                    p.num = 5;
                    p.text = "5";
                    Sut t;
                    s->clear();
                    s->emplace(5);
                    Harness h;
                    Model one;
                    one.indexed.push_back(p);
                    check_store(*s, one, "the store moved from");
                }
                s = std::move(t2);
                mark_state(5000);
            }
            check_store(*s, m, o == normal ? "after adding" : "after a failure");
        }
        s.reset();
    }
    bool same(const Store& s, const std::string& name, const Plan& p)
    {
        try
        {
            check_arg(s.get(V(W<C>(name))), p, "");
            if(usable(p) && show(s, W<C>("{" + name + "}")) != p.text) return false;
            return true;
        }
        catch(const Violation&)
        {
            return false;
        }
        catch(const std::exception&)
        {
            return false;
        }
    }

    // ---- single arguments: copy refers, move transfers -----------------------------
    void args()
    {
        struct Slot
        {
            std::optional<Arg> arg;
            std::optional<Plan> plan; // none: empty
            int obj = -1;             // the owned object behind it, -1: none
            bool owner = false;
        };
        Slot slot[4];
        int objs = 0;
        auto alive = [&](const Slot& x)
        {
            if(x.obj < 0) return true;
            for(auto& y : slot)
                if(y.obj == x.obj && y.owner) return true;
            return false;
        };
        // dropping an owner invalidates its borrowers, which must not be used any more
        auto dropped = [&](int obj)
        {
            if(obj < 0) return;
            for(auto& y : slot)
                if(y.obj == obj && !y.owner)
                {
                    y.arg.reset();
                    y.plan.reset();
                    y.obj = -1;
                }
        };
        // the text an argument owns may move with it (short strings): copies refer to the old place
        auto relocated = [&](const Slot& y)
        {
            if(y.owner && y.plan && is_text(y.plan->kind)) dropped(y.obj);
        };
        for(auto& x : slot) x.arg.emplace();
        for(u64 n = range(1, 20), q = 0; q < n; ++q)
        {
            op_begin();
            int i = (int)draw(4), j = (int)draw(4);
            Slot &a = slot[i], &b = slot[j];
            if(!a.arg) a.arg.emplace();
            if(!b.arg) b.arg.emplace();
            u64 op = draw(7);
            ev("arg op %llu on %d, %d", (unsigned long long)op, i, j);
            mark_state(6000 + op * 64 + (a.plan ? (u64)a.plan->kind : 30));
            switch(op)
            {
            case 0:
            case 1:
            {
                Plan p = plan();
                bool oom = chance(1, 4);
                u64 k = draw(3);
                Outcome o;
                u64 oomed;
                std::optional<Arg> made;
                {
                    Sut t;
                    if(oom) arm_oom(Oom::persistent, k);
                    o = guarded([&] { with(p, [&](auto&& v) { made.emplace(std::forward<decltype(v)>(v)); }); });
                    oomed = oom_fired();
                    disarm_oom();
                }
                if(oomed) nontrivial();
                if(o != normal && !(o == bad_alloc && oomed)) fail("wrong-exception", "making an argument failed with %s", what.c_str());
                if(o != normal) break;
                int old = a.owner ? a.obj : -1;
                bool by_move = draw(2);
                a.owner = false;
                a.obj = -1;
                a.plan.reset();
                dropped(old);
                {
                    Sut t;
                    if(by_move) *a.arg = std::move(*made);
                    else a.arg.reset(), a.arg.emplace(std::move(*made));
                    made.reset();
                }
                a.plan = p;
                a.owner = owns(p.kind);
                a.obj = a.owner ? objs++ : -1;
                break;
            }
            case 2: // copy-assign
            {
                if(i == j)
                {
                    Sut t;
                    Arg& self = *a.arg;
                    *a.arg = self;
                    break;
                }
                int old = a.owner ? a.obj : -1;
                if(b.obj >= 0 && b.obj == old) break; // b refers to what a owns
                a.owner = false;
                a.obj = -1;
                dropped(old);
                if(!b.arg) b.arg.emplace();
                {
                    Sut t;
                    *a.arg = *b.arg;
                }
                a.plan = b.plan;
                a.obj = b.obj;
                if(a.obj >= 0 && is_text(a.plan->kind) && a.arg->has_ownership())
                { // copying a text may give it a copy of its own
                    a.obj = objs++;
                    a.owner = true;
                }
                break;
            }
            case 3: // copy-construct
            {
                if(i == j) break;
                int old = a.owner ? a.obj : -1;
                if(b.obj >= 0 && b.obj == old) break;
                a.owner = false;
                a.obj = -1;
                dropped(old);
                if(!b.arg) b.arg.emplace();
                {
                    Sut t;
                    a.arg.reset();
                    a.arg.emplace(static_cast<const Arg&>(*b.arg));
                }
                a.plan = b.plan;
                a.obj = b.obj;
                break;
            }
            case 4: // move
            {
                if(i == j) break;
                int old = a.owner ? a.obj : -1;
                if(b.obj >= 0 && b.obj == old) break;
                a.owner = false;
                a.obj = -1;
                dropped(old);
                if(!b.arg) b.arg.emplace();
                relocated(b);
                if(!a.arg) a.arg.emplace();
                bool build = draw(2);
                {
                    Sut t;
                    if(build) a.arg.reset(), a.arg.emplace(std::move(*b.arg));
                    else *a.arg = std::move(*b.arg);
                    if(!b.arg->empty()) flag("kept-after-move", "an argument that was moved from still holds a value");
                    b.arg.emplace();
                }
                a.plan = b.plan;
                a.obj = b.obj;
                a.owner = b.owner;
                b.plan.reset();
                b.obj = -1;
                b.owner = false;
                break;
            }
            case 5: // swap
            {
                relocated(a);
                relocated(b);
                if(!a.arg) a.arg.emplace();
                if(!b.arg) b.arg.emplace();
                {
                    Sut t;
                    if(draw(2)) a.arg->swap(*b.arg);
                    else swap(*a.arg, *b.arg);
                }
                if(i != j)
                {
                    std::swap(a.plan, b.plan);
                    std::swap(a.obj, b.obj);
                    std::swap(a.owner, b.owner);
                }
                break;
            }
            default:
            {
                int old = a.owner ? a.obj : -1;
                a.owner = false;
                a.obj = -1;
                a.plan.reset();
                dropped(old);
                Sut t;
                a.arg.reset();
                break;
            }
            }
            for(auto& x : slot)
            {
                if(!x.arg) continue;
                if(!x.plan)
                {
                    if(!x.arg->empty()) fail("wrong-value", "an empty argument is not empty");
                    continue;
                }
                if(!alive(x)) continue;
                Plan p = *x.plan;
                // a copy refers: it owns nothing
                bool borrowed = x.obj >= 0 && !x.owner;
                if(borrowed)
                {
                    probe("argument-borrows");
                    if((p.kind == v_own_fmt || p.kind == v_own_vec) && x.arg->has_ownership()) fail("wrong-value", "a copy of an argument claims to own the object");
                    if(p.kind == v_own_fmt) p.kind = v_fmt, p.fmt = const_cast<Fmt*>(&get<Fmt>(*x.arg));
                    else if(p.kind == v_own_str) p.kind = v_box_str;
                    else if(p.kind == v_own_vec) continue;
                }
                check_arg(*x.arg, p, "single argument");
            }
        }
        Sut t;
        // borrowers first or last, the order must not matter for destruction
        for(int k = 0; k < 4; ++k) slot[k].arg.reset();
    }
    void run()
    {
        if(chance(1, 3)) args();
        else stores();
    }
};

void run()
{
    Points::reset();
    Points::id = 0;
    Ledger::live = 0;
    {
        if(chance(1, 3))
        {
            World<wchar_t> w;
            w.run();
        }
        else
        {
            World<char> w;
            w.run();
        }
    }
    if(Ledger::live) fail("object-count", "%ld user objects too many or too few", Ledger::live);
}
} // namespace

const Property sim::property = {
    "C16", run, 200000, 6000000, 60000000,
    "1-24 random operations (emplace positional and named, append, clear, move) on a dynamic store with values of 15 kinds, every lookup and a formatting of all arguments checked after each; or 1-20 operations (make, copy, move, swap, drop) on four single arguments; an allocation or the copy of a value fails; non-trivial: a fault fired",
    "argument storage and formatting in include/papilio/core.hpp, containers, memory.hpp",
    "user types, global operator new/delete"};
