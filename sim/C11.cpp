// C11: formatting from any number of threads with shared constant arguments, stores, locales and
// strings is free of data races and every call gives the result it would give alone.
// SIM: mode=sched parts=8
#include "fmtwork.hpp"
#include "simfile.hpp"
#include <papilio/color.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/print.hpp>
#include <locale>
#include <memory>
#include <sstream>
#include <thread>

using namespace sim;
using namespace fw;

namespace c11
{
template <typename C>
struct Punct : std::numpunct<C>
{
    C do_thousands_sep() const override { return C('_'); }
    std::string do_grouping() const override { return "\3"; }
    std::basic_string<C> do_truename() const override { return W<C>("yes"); }
    std::basic_string<C> do_falsename() const override { return W<C>("no"); }
};

enum How : int
{
    // 0: own arguments, result text known
    h_format,
    h_format_loc,
    h_to,
    h_size,
    h_n,
    // 1: shared stores
    h_store,
    h_store_loc,
    h_dyn,
    h_dyn_loc,
    h_lookup,
    // 2: streams and files of the thread's own
    h_os,
    h_file,
    h_iter,
    // 3: other values, result compared with a later call made alone
    h_extra,
    h_error,
    h_style,
    h_strings,
    h_errors_lib,
    h_count
};
constexpr const char* how_name[] = {"format", "format(locale)", "format_to", "formatted_size", "format_to_n", "vformat(shared args)", "vformat(locale, shared args)", "vformat(shared dynamic store)",
                                    "vformat(locale, shared dynamic store)", "argument lookup in a shared store", "print(ostream)", "print(FILE)", "format_to(own iterator)", "format(mixed values)", "format(bad format string)", "styled text", "shared string_container", "library errors"};
constexpr int group_of(int h) { return h <= h_n ? 0 : h <= h_lookup ? 1 : h <= h_iter ? 2 : 3; }

template <typename C>
using Ctx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
template <typename C>
using Store = papilio::basic_dynamic_format_args<Ctx<C>, C>;
template <typename C>
using Ref = papilio::basic_format_args_ref<Ctx<C>, C>;

// everything the threads share; constant while they run
template <typename C>
struct Shared
{
    using S = std::basic_string<C>;
    Pack<C> p;
    std::locale loc = std::locale(std::locale::classic(), new Punct<C>);
    std::vector<Program> g;
    std::vector<S> fmt;
    std::vector<S> bad;
    std::shared_ptr<void> keep;
    std::unique_ptr<Store<C>> dyn;
    const papilio::format_args_base<Ctx<C>, C>* stat = nullptr;
    papilio::utf::basic_string_container<C> borrowed, owned;
    S text;
    std::tm tm{};
    long big = 1234567;
    std::thread::id tid;
    std::filesystem::path path = "a/b c";
    papilio::small_vector<S, 2> sv;
    long double ld = 1234.5L;
};

template <typename C>
struct Op
{
    int how = 0, prog = 0, sub = 0;
    long n = 0;
    Oom oom = Oom::none;
    u64 k = 0;
    bool thr = false;
    u64 tk = 0;
    int kind = 0;
    // outcome
    enum Out
    {
        done,
        oomed,
        threw,
        other
    } out = done;
    std::basic_string<C> text;
    long size = -1, end = -1;
    std::string what;
    u64 ofired = 0, tfired = 0;
};

template <typename C>
struct Sink
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::basic_string<C>* s;
    Sink& operator*() { return *this; }
    Sink& operator++() { return *this; }
    Sink operator++(int) { return *this; }
    Sink& operator=(C c)
    {
        s->push_back(c);
        return *this;
    }
};

// each is compiled in a translation unit of its own
#define DECL(n) \
    void call##n(Op<char>& o, const Shared<char>& sh); \
    void call##n(Op<wchar_t>& o, const Shared<wchar_t>& sh);
DECL(0)
DECL(1)
DECL(2)
DECL(3)
#define GROUP(n) \
    void call##n(Op<CHAR>& o, const Shared<CHAR>& sh) { group##n<CHAR>(o, sh); }

template <typename C>
auto with_args(const Shared<C>& sh, auto&& fn)
{ // the library takes them as constants
    return const_cast<Pack<C>&>(sh.p).apply(fn);
}

template <typename C>
void group0(Op<C>& o, const Shared<C>& sh)
{
    std::basic_string_view<C> f = sh.fmt[o.prog];
    with_args(sh, [&](auto&&... a)
    {
        switch(o.how)
        {
        case h_format: o.text = papilio::format(f, a...); break;
        case h_format_loc: o.text = papilio::format(sh.loc, f, a...); break;
        case h_to: papilio::format_to(std::back_inserter(o.text), f, a...); break;
        case h_size: o.size = (long)papilio::formatted_size(f, a...); break;
        default:
        {
            std::unique_ptr<C[]> buf(new C[o.n + 1]());
            auto r = papilio::format_to_n(buf.get(), o.n, f, a...);
            o.text.assign(buf.get(), (std::size_t)r.size);
            o.size = (long)r.size;
            o.end = r.out - buf.get();
            break;
        }
        }
        return 0;
    });
}
template <typename C>
void group1(Op<C>& o, const Shared<C>& sh)
{
    std::basic_string_view<C> f = sh.fmt[o.prog];
    switch(o.how)
    {
    case h_store: o.text = papilio::vformat(f, *sh.stat); break;
    case h_store_loc: o.text = papilio::vformat(sh.loc, f, *sh.stat); break;
    case h_dyn: o.text = papilio::vformat(f, *sh.dyn); break;
    case h_dyn_loc: o.text = papilio::vformat(sh.loc, f, *sh.dyn); break;
    default:
    {
        const papilio::format_args_base<Ctx<C>, C>& args = o.sub & 1 ? (const papilio::format_args_base<Ctx<C>, C>&)*sh.dyn : *sh.stat;
        Ref<C> ref(args);
        auto add = [&](const std::string& s) { o.text += W<C>(s); };
        auto nm = W<C>(o.sub & 2 ? "s" : "n");
        add(ref.contains(nm) ? "1" : "0");
        add(ref.contains(W<C>("nope")) ? "1" : "0");
        add(std::to_string(ref.indexed_size() * 100 + ref.named_size()));
        auto arg = ref.get(o.sub & 4 ? (std::size_t)a_s : (std::size_t)a_i); // a copy of the shared argument
        auto arg2 = ref.get(nm);
        arg2 = arg;
        auto copy = arg2;
        copy.visit([&](const auto& v)
        {
            if constexpr(std::is_same_v<std::decay_t<decltype(v)>, int>) add(std::to_string(v));
            else if constexpr(requires { v.length(); v.begin(); }) o.text += std::basic_string<C>(v.begin(), v.end());
        });
        auto fm = ref.get(std::size_t(a_f)); // a handle of the user's object
        auto fm2 = fm;
        fm2 = ref.get(std::size_t(a_st));
        fm = fm2;
        o.text += papilio::format(W<C>("{0}{1.length}"), sh.p.vs.empty() ? sh.owned : sh.borrowed, sh.text);
        break;
    }
    }
}
template <typename C>
void group2(Op<C>& o, const Shared<C>& sh)
{
    if constexpr(sizeof(C) == 1)
    {
        std::basic_string_view<C> f = sh.fmt[o.prog];
        if(o.how == h_os)
        {
            std::ostringstream os;
            os.exceptions(std::ios_base::badbit); // what user code throws comes out
            if(o.sub & 1) os.imbue(sh.loc);
            with_args(sh, [&](auto&&... a)
            {
                papilio::print(os, f, a...);
                return 0;
            });
            o.text = os.str();
        }
        else if(o.how == h_file)
        {
            std::unique_ptr<SimFile> sf;
            {
                Harness h;
                sf.reset(new SimFile);
                sf->open("w");
            }
            struct Back
            {
                std::unique_ptr<SimFile>& p;
                ~Back()
                {
                    Harness h;
                    p.reset();
                }
            } back{sf};
            with_args(sh, [&](auto&&... a)
            {
                papilio::print(sf->f, f, a...);
                return 0;
            });
            Harness h;
            std::fflush(sf->f);
            o.text = sf->dev.disk;
        }
    }
    if(o.how == h_iter)
        with_args(sh, [&](auto&&... a)
        {
            papilio::format_to(Sink<C>{&o.text}, std::basic_string_view<C>(sh.fmt[o.prog]), a...);
            return 0;
        });
}
// The text of these is not known to the harness: a later call in a single thread decides.
template <typename C>
void group3(Op<C>& o, const Shared<C>& sh)
{
    using S = std::basic_string<C>;
    auto F = [](const char* s) { return W<C>(s); };
    switch(o.how)
    {
    case h_extra:
        switch(o.sub % 8)
        {
        case 0: o.text = papilio::format(F("{:%Y-%m-%d %A} {}"), sh.tm, sh.tm); break;
        case 1: o.text = papilio::format(sh.loc, F("{:L} {:L} {:10L} {:L}"), sh.big, true, sh.big, sh.ld); break;
        case 2: o.text = papilio::format(F("{} {} {:x} {:e} {:>12.3f}"), sh.tid, sh.path, sh.big, 1.25, sh.p.d); break;
        case 3: o.text = papilio::format(F("{} {:*^40} {} {}"), sh.borrowed, sh.owned, (const void*)0x12345678, C('x')); break;
        case 4: o.text = papilio::format(sh.loc, F("{0} {0:L} {1:L} {2:L>%H}"), sh.p.d, sh.big, sh.tm); break;
        case 5: o.text = papilio::format(F("{} {:n:} {}"), sh.sv, sh.p.vs, sh.p.mi); break;
        case 6: o.text = papilio::format(F("{0[1:3]} {0.length} {1[-1]} {2['k'][1]}"), sh.owned, sh.p.t, sh.p.mv); break;
        default: o.text = papilio::format(F("{:?} {:?} {:#x} {:#b}"), sh.text, C('\n'), sh.big, 5); break;
        }
        break;
    case h_error:
        o.text = with_args(sh, [&](auto&&... a) { return papilio::format(std::basic_string_view<C>(sh.bad[o.prog]), a...); });
        break;
    case h_style:
        if constexpr(sizeof(C) == 1)
        {
            using namespace papilio;
            text_style st = fg(color::red) | bg(color::blue) | style::bold;
            st.set(std::back_inserter(o.text));
            o.text += papilio::format("{} {}", styled(st, sh.p.i), styled(fg(color::green), sh.p.s));
            st.reset(std::back_inserter(o.text));
        }
        break;
    case h_strings:
    {
        const auto &b = sh.borrowed, &w = sh.owned;
        auto cp = b;
        auto cp2 = w;
        o.text += b == w ? C('=') : b < w ? C('<') : C('>');
        o.text += b == std::basic_string_view<C>(sh.text) ? C('=') : C('!');
        o.text += cp == b ? C('=') : C('!');
        o.text += cp2 == w ? C('=') : C('!');
        for(papilio::utf::codepoint c : b) o.text += (C)(char32_t(c) % 64 + 48);
        auto sub = w.substr(1, 3);
        o.text += sub == w ? C('=') : C('!');
        cp.push_back(U'x');
        cp2.push_back(U'\u00e9');
        cp2 = cp;
        o.text += (C)('0' + cp2.length() % 10);
        o.text += (C)('0' + w.length() % 10);
        o.text += (C)('0' + (b.find(U'a') != b.end()) + (w.contains(U'q') ? 2 : 0));
        if(!b.empty()) o.text += (C)(char32_t(b[0]) % 64 + 48);
        break;
    }
    default: // errors the library makes up itself
        try
        {
            switch(o.sub % 4)
            {
            case 0: (void)sh.stat->get(std::size_t(1000)); break;
            case 1: (void)sh.dyn->get(W<C>("nope")); break;
            case 2: (void)papilio::format(F("{:d}"), sh.text); break;
            default: (void)papilio::format(F("{0.nope}"), sh.text); break;
            }
        }
        catch(const papilio::format_error& e)
        {
            o.text += W<C>(e.what());
        }
        catch(const std::out_of_range& e)
        {
            o.text += W<C>(e.what());
        }
        catch(const papilio::invalid_attribute& e)
        {
            o.text += W<C>(e.what());
        }
        break;
    }
}

#if SIM_PART == 0
#    define CHAR char
GROUP(0)
#elif SIM_PART == 1
#    define CHAR char
GROUP(1)
#elif SIM_PART == 2
#    define CHAR char
GROUP(2)
#elif SIM_PART == 3
#    define CHAR char
GROUP(3)
#elif SIM_PART == 4
#    define CHAR wchar_t
GROUP(0)
#elif SIM_PART == 5
#    define CHAR wchar_t
GROUP(1)
#elif SIM_PART == 6
#    define CHAR wchar_t
GROUP(2)
GROUP(3)
#else
static void warm(const std::locale& l)
{ // libstdc++ fills these caches on first use without synchronisation the simulator can see
    auto one = [&]<typename C>(C)
    {
        std::basic_ostringstream<C> os;
        os.imbue(l);
        os << 1 << true << 1.5 << std::put_time(std::localtime(&(const std::time_t&)std::time_t{0}), W<C>("%A %x").c_str());
        auto& ct = std::use_facet<std::ctype<C>>(l);
        for(int k = 0; k < 256; ++k)
        {
            ct.widen((char)k);
            ct.narrow((C)k, 0);
            ct.narrow((C)k, 'x');
        }
        char b[2] = {1, 2}, d[2];
        C wb[2];
        ct.widen(b, b + 2, wb);
        ct.narrow(wb, wb + 2, 0, d);
    };
    one(char());
    one(wchar_t());
}

template <typename C>
void perform(Op<C>& o, const Shared<C>& sh)
{
    o.text.clear();
    switch(group_of(o.how))
    {
    case 0: call0(o, sh); break;
    case 1: call1(o, sh); break;
    case 2: call2(o, sh); break;
    default: call3(o, sh); break;
    }
}

template <typename C>
void execute(Op<C>& o, const Shared<C>& sh, bool faults)
{
    Op<C> w = o; // results are built here, in the thread
    o.ofired = o.tfired = 0;
    {
        Sut t;
        if(faults && o.thr)
        {
            Points::reset();
            Points::arm(o.tk, o.kind);
            Points::only = sched::self();
        }
        if(faults && o.oom != Oom::none) arm_oom(o.oom, o.k);
        w.out = Op<C>::done;
        auto note = [&](typename Op<C>::Out k, const char* what)
        {
            u64 f = oom_fired();
            disarm_oom();
            Harness h;
            o.ofired = f;
            w.out = k;
            w.what = what;
        };
        try
        {
            perform(w, sh);
            o.ofired = oom_fired();
        }
        catch(const UserAlloc&) { note(Op<C>::threw, "user"); }
        catch(const std::bad_alloc&) { note(Op<C>::oomed, "bad_alloc"); }
        catch(const UserThrow&) { note(Op<C>::threw, "user"); }
        catch(const UserRuntime&) { note(Op<C>::threw, "user"); }
        catch(const UserFormat&) { note(Op<C>::threw, "user"); }
        catch(const UserRange&) { note(Op<C>::threw, "user"); }
        catch(const UserIos&) { note(Op<C>::threw, "user"); }
        catch(int) { note(Op<C>::threw, "user"); }
        catch(const std::exception& e) { note(Op<C>::other, e.what()); }
        disarm_oom();
    }
    if(faults && o.thr && Points::only == sched::self())
    {
        o.tfired = Points::fired;
        Points::armed = false;
        Points::only = -1;
    }
    o.out = w.out;
    o.text = w.text;
    o.size = w.size;
    o.end = w.end;
    o.what = w.what;
}

template <typename C>
void judge(const Op<C>& o, Shared<C>& sh, int t)
{
    const char* nm = how_name[o.how];
    const std::string& fm = sh.g[o.prog].fmt;
    if(o.out == Op<C>::oomed && !o.ofired) fail("spurious-failure", "thread %d: %s of \"%s\" reported bad_alloc although no allocation failed", t, nm, fm.c_str());
    if(o.out == Op<C>::threw && !o.tfired) fail("foreign-failure", "thread %d: %s of \"%s\" failed with an exception that belongs to another call", t, nm, fm.c_str());
    if(o.ofired || o.tfired)
    {
        nontrivial();
        if(o.out != Op<C>::done) return;
        if(o.tfired) fail("swallowed", "thread %d: %s of \"%s\" swallowed an exception of user code", t, nm, fm.c_str());
    }
    bool known = group_of(o.how) != 3 && o.how != h_lookup;
    if(known)
    {
        std::basic_string<C> want = W<C>(sh.g[o.prog].text);
        long size = -1, end = -1;
        if(o.how == h_size) size = (long)want.size(), want.clear();
        if(o.how == h_n)
        {
            want = want.substr(0, o.n);
            size = end = (long)want.size();
        }
        if(o.how == h_n && o.out == Op<C>::done && (o.size != size || o.end != end)) fail("wrong-result", "thread %d: format_to_n of \"%s\" reports %ld/%ld, expected %ld", t, fm.c_str(), o.size, o.end, size);
        if(o.out != Op<C>::done || o.text != want || (o.how == h_size && o.size != size))
            fail("wrong-result", "thread %d: %s of \"%s\" gave \"%s\" (%ld) %s, expected \"%s\" (%ld)", t, nm, fm.c_str(), N<C>(o.text).c_str(), o.size, o.what.c_str(), N<C>(want).c_str(), size);
        return;
    }
    Op<C> alone = o;
    execute(alone, sh, false);
    if(alone.out != o.out || alone.text != o.text || alone.what != o.what)
        fail("differs-from-alone", "thread %d: %s (%d) of \"%s\" gave \"%s\" %s; alone it gives \"%s\" %s", t, nm, o.sub, fm.c_str(), N<C>(o.text).c_str(), o.what.c_str(), N<C>(alone.text).c_str(), alone.what.c_str());
}

template <typename C>
void run_as()
{
    long ledger0 = Ledger::live;
    {
        auto shp = std::make_unique<Shared<C>>();
        Shared<C>& sh = *shp;
        for(u64 n = range(1, 3), k = 0; k < n; ++k)
        {
            sh.g.push_back(program(sh.p, 3));
            sh.fmt.push_back(W<C>(sh.g.back().fmt));
            static const char* const bad[] = {"{", "{999}", "{nope}", "{0:!}", "}", "{0[", "{$ {0} ? }", "{s.nope}", "{0:{s}}", "{$ {nope} ? 'x'}"};
            sh.bad.push_back(W<C>((draw(2) ? sh.g.back().fmt : std::string("x")) + pick(bad)));
        }
        sh.text = W<C>(draw(2) ? Pack<C>::uni(6) + "abc" : "abc" + Pack<C>::word(0, 30));
        sh.borrowed = papilio::utf::basic_string_ref<C>(sh.text);
        sh.owned = papilio::utf::basic_string_container<C>(papilio::independent, sh.text);
        sh.tm.tm_year = 100 + (int)draw(30);
        sh.tm.tm_mon = (int)draw(12);
        sh.tm.tm_mday = 1 + (int)draw(28);
        sh.tm.tm_wday = (int)draw(7);
        sh.sv.push_back(W<C>("p"));
        for(u64 k = draw(3); k--;) sh.sv.push_back(W<C>(Pack<C>::word(0, 20)));
        std::locale::classic();
        warm(std::locale::classic());
        warm(sh.loc);
        auto body = [&](const papilio::format_args_base<Ctx<C>, C>& stat)
        {
            sh.stat = &stat;
            int threads = 2 + (int)draw(3);
            std::vector<std::vector<Op<C>>> ops(threads);
            for(int t = 0; t < threads; ++t)
            {
                ops[t].resize(range(1, 3));
                for(auto& o : ops[t])
                {
                    op_begin();
                    o.how = (int)draw(h_count);
                    if(sizeof(C) != 1 && (o.how == h_os || o.how == h_file)) o.how = h_iter;
                    o.prog = (int)draw(sh.fmt.size());
                    o.sub = (int)draw(16);
                    o.n = (long)draw(20);
                    if(chance(1, 6))
                    {
                        o.oom = draw(2) ? Oom::once : Oom::persistent;
                        o.k = 1 + draw(12);
                    }
                    else if(!t && chance(1, 4))
                    {
                        o.thr = true;
                        o.tk = draw(20);
                        o.kind = (int)draw(k_count);
                    }
                }
            }
            const std::string print = sh.p.print();
            sched::run(threads, [&](int t)
            {
                for(auto& o : ops[t])
                {
                    execute(o, sh, true);
                    ev("  thread %d %s %d: %d %s", t, how_name[o.how], o.sub, (int)o.out, o.what.c_str());
                    mark_state(((u64)o.how * 16 + (u64)o.sub) * 8 + (u64)o.out * 2 + (sizeof(C) == 1));
                }
            });
            if(flagged()) return;
            if(sh.p.print() != print) fail("argument-changed", "formatting changed its arguments: %s is now %s", print.c_str(), sh.p.print().c_str());
            for(int t = 0; t < threads; ++t)
                for(auto& o : ops[t]) judge(o, sh, t);
            if(sched::preemptions()) probe("preempted-run");
        };
        sh.dyn.reset(new Store<C>);
        sh.p.apply([&](auto&&... a) { return sh.dyn->append(a...), 0; });
        sh.p.apply([&](auto&&... a)
        {
            auto st = papilio::make_format_args<Ctx<C>>(std::forward<decltype(a)>(a)...);
            body(st);
            return 0;
        });
    }
    if(flagged()) return;
    if(Ledger::live != ledger0) fail("object-count", "%ld user objects too many or too few", Ledger::live - ledger0);
}

static void run()
{
    Points::reset();
    Points::id = 0;
    Points::only = -1;
    Ledger::live = 0;
    if(chance(1, 3)) run_as<wchar_t>();
    else run_as<char>();
}
#endif
} // namespace c11

#if SIM_PART == 7
const Property sim::property = {
    "C11", c11::run, 40000, 800000, 4000000,
    "2-4 threads make 1-3 formatting calls each (18 ways, char and wchar_t) on shared arguments, stores, strings and a shared locale under a seeded schedule that may switch threads at every memory access of the library, lock and static-initialisation guard; allocations fail and user code throws in single calls; non-trivial: preempted or a fault fired",
    "all of src/ and include/, libstdc++ (templates instrumented, compiled parts not)",
    "thread scheduling, locks, operator new, user types, device behind the FILE", true, true};
#endif
