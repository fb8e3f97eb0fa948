// C12: formatting depends on its arguments only: not on the global locales, errno, other streams
// or earlier calls, all of which change between the calls and in the middle of them.
// SIM: parts=5 locales=de_DE,tr_TR
#include "fmtwork.hpp"
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/print.hpp>
#include <cerrno>
#include <clocale>
#include <iomanip>
#include <iostream>
#include <locale>
#include <locale.h>
#include <memory>
#include <sstream>

using namespace sim;
using namespace fw;

namespace c12
{
template <typename C>
struct Punct : std::numpunct<C>
{
    C do_thousands_sep() const override { return C('_'); }
    C do_decimal_point() const override { return C(';'); }
    std::string do_grouping() const override { return "\2"; }
    std::basic_string<C> do_truename() const override { return W<C>("yes"); }
    std::basic_string<C> do_falsename() const override { return W<C>("no"); }
};
// ---- the environment ---------------------------------------------------------
struct Pool
{
    std::vector<std::locale> loc; // 0 is the classic one
    std::vector<const char*> c;
    std::vector<locale_t> thr;
};
Pool& pool();

struct Env
{
    int cpp = 0, c = 0, thr = 0, err = 0;
};

// ---- the workload --------------------------------------------------------------
struct Num // operator<< that a locale shows in
{
    long v;
    bool b;
    template <typename C>
    friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const Num& n)
    {
        Points::hit("throw-in-operator<<");
        os << n.v << C('|');
        Points::hit("throw-in-operator<<");
        return os << 1234.5 << C('|') << std::boolalpha << n.b << std::noboolalpha << n.b;
    }
};
template <typename C>
struct Deep // formats something else while it is being formatted
{
    Num n;
    double d;
    std::tm tm;
};
enum How : int
{
    h_format,
    h_format_loc,
    h_vformat,
    h_to,
    h_to_loc,
    h_n,
    h_size,
    h_dyn,
    h_iter,
    h_vformat_loc,
    h_vto_loc,
    h_size_loc,
    h_n_loc,
    h_os, // char only from here on
    h_file,
    h_count
};
constexpr const char* how_name[] = {"format", "format(locale)", "vformat", "format_to", "format_to(locale)", "format_to_n", "formatted_size", "vformat(dynamic store)", "format_to(iterator)", "vformat(locale)", "vformat_to(locale)", "formatted_size(locale)", "format_to_n(locale)", "print(ostream)", "print(FILE)"};

template <typename C>
struct Extra
{
    std::tm tm{};
    Num num;
    bool b;
    double d;
    long l;
    std::filesystem::path path;
    Deep<C> deep;
    std::basic_string<C> s;
};
template <typename C>
struct Call
{
    bool pack = false;
    int how = 0;
    int loc = 0; // the explicit locale
    int state = 0; // of the stream
    long n = 0;
    std::basic_string<C> fmt, text;
    std::string show;
    bool known = true;
};
template <typename C>
struct Out
{
    std::basic_string<C> text;
    long size = -1;
};

#define DECL(n) \
    void call##n(Out<char>& o, const Call<char>& k, Pack<char>& p, Extra<char>& x); \
    void call##n(Out<wchar_t>& o, const Call<wchar_t>& k, Pack<wchar_t>& p, Extra<wchar_t>& x);
DECL(1)
DECL(2)
DECL(3)
DECL(4)

// a stream whose state says nothing about the text
template <typename S>
void disturb(S& os, int state)
{
    if(state & 1) os.setf(std::ios_base::hex, std::ios_base::basefield);
    if(state & 2) os.setf(std::ios_base::showbase | std::ios_base::uppercase | std::ios_base::showpos);
    if(state & 4) os.setf(std::ios_base::boolalpha | std::ios_base::scientific);
    if(state & 8) os.precision(2);
    if(state & 16) os.fill('#'), os.setf(std::ios_base::left);
}
template <typename C>
void print_os(Out<C>& o, const Call<C>& k, auto&&... a)
{
    if constexpr(sizeof(C) == 1)
    {
        std::ostringstream os;
        os.imbue(pool().loc[k.loc]);
        os.exceptions(std::ios_base::badbit);
        disturb(os, k.state);
        auto flags = os.flags();
        auto prec = os.precision();
        auto fill = os.fill();
        struct After
        {
            std::ostringstream& os;
            std::ios_base::fmtflags flags;
            std::streamsize prec;
            char fill;
            int loc;
            ~After()
            {
                if(os.flags() != flags || os.precision() != prec || os.fill() != fill || os.width() != 0) flag("stream-state", "printing to a stream changed its formatting state");
                if(os.getloc() != pool().loc[loc]) flag("stream-state", "printing to a stream changed its locale");
            }
        } after{os, flags, prec, fill, k.loc};
        papilio::print(os, k.fmt, a...);
        o.text = os.str();
    }
}
void print_file(Out<char>& o, const Call<char>& k, auto&&... a)
{
    struct Mem
    {
        char* p = nullptr;
        std::size_t n = 0;
        FILE* f;
        Mem()
        {
            Harness h;
            f = open_memstream(&p, &n);
        }
        ~Mem()
        {
            Harness h;
            std::fclose(f);
            std::free(p);
        }
    } m;
    papilio::print(m.f, k.fmt, a...);
    std::fflush(m.f);
    o.text.assign(m.p, m.n);
}
template <typename C>
struct Sink
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::basic_string<C>* s;
    Sink& operator*() { return *this; }
    Sink& operator++() { return *this; }
    Sink operator++(int) { return *this; }
    Sink& operator=(C c)
    {
        s->push_back(c);
        return *this;
    }
};
template <typename C>
auto extra(Extra<C>& x, auto&& fn)
{
    static const std::basic_string<C> nd = W<C>("d"), nn = W<C>("num");
    return fn(x.tm, x.num, x.b, x.d, x.l, x.path, x.deep, x.s, papilio::arg(nd.c_str(), x.d), papilio::arg(nn.c_str(), x.num));
}
template <typename C>
void extra_call(Out<C>& o, const Call<C>& k, Extra<C>& x, int lo, int hi)
{
    using Ctx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
    std::basic_string_view<C> f = k.fmt;
    std::locale& loc = pool().loc[k.loc];
    extra(x, [&](auto&&... a)
    {
        switch(k.how)
        {
        case h_format: o.text = papilio::format(f, a...); break;
        case h_format_loc: o.text = papilio::format(loc, f, a...); break;
        case h_vformat: o.text = papilio::vformat(f, papilio::make_format_args<Ctx>(a...)); break;
        case h_to: papilio::format_to(std::back_inserter(o.text), f, a...); break;
        case h_to_loc: papilio::format_to(std::back_inserter(o.text), loc, f, a...); break;
        case h_n:
        {
            std::unique_ptr<C[]> buf(new C[k.n + 1]());
            auto r = papilio::format_to_n(buf.get(), k.n, f, a...);
            o.text.assign(buf.get(), (std::size_t)r.size);
            break;
        }
        case h_size: o.size = (long)papilio::formatted_size(f, a...); break;
        case h_dyn:
        {
            papilio::basic_dynamic_format_args<Ctx, C> st;
            st.append(a...);
            o.text = papilio::vformat(f, st);
            break;
        }
        case h_iter: papilio::format_to(Sink<C>{&o.text}, f, a...); break;
        case h_vformat_loc: o.text = papilio::vformat(loc, f, papilio::make_format_args<Ctx>(a...)); break;
        case h_vto_loc:
        {
            using It = std::back_insert_iterator<std::basic_string<C>>;
            papilio::vformat_to(It(o.text), loc, f, papilio::make_format_args<papilio::basic_format_context<It, C>>(a...));
            break;
        }
        case h_size_loc: o.size = (long)papilio::formatted_size(loc, f, a...); break;
        case h_n_loc:
        {
            std::unique_ptr<C[]> buf(new C[k.n + 1]());
            auto r = papilio::format_to_n(buf.get(), k.n, loc, f, a...);
            o.text.assign(buf.get(), (std::size_t)r.size);
            break;
        }
        case h_os: print_os(o, k, a...); break;
        case h_file:
            if constexpr(sizeof(C) == 1) print_file(o, k, a...);
            break;
        }
        return 0;
    });
    (void)lo, (void)hi;
}
template <typename C>
void pack_call(Out<C>& o, const Call<C>& k, Pack<C>& p)
{
    std::basic_string_view<C> f = k.fmt;
    const std::locale& loc = pool().loc[k.loc];
    p.apply([&](auto&&... a)
    {
        switch(k.how)
        {
        case h_format_loc: o.text = papilio::format(loc, f, a...); break;
        case h_to: papilio::format_to(std::back_inserter(o.text), f, a...); break;
        default: o.text = papilio::format(f, a...);
        }
        return 0;
    });
}
} // namespace c12

namespace papilio
{
template <typename CharT>
class formatter<c12::Deep<CharT>, CharT>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        return ctx.begin();
    }
    template <typename Context>
    auto format(const c12::Deep<CharT>& v, Context& ctx) const -> typename Context::iterator
    {
        using context_t = papilio::format_context_traits<Context>;
        auto inner = papilio::format(fw::W<CharT>("{}/{:%A}"), v.n, v.tm);
        fw::Points::hit("throw-in-format");
        context_t::append(ctx, std::basic_string_view<CharT>(inner));
        context_t::append(ctx, CharT('/'));
        context_t::format_to(ctx, fw::W<CharT>("{:.2f} {:L}"), v.d, v.n);
        return context_t::out(ctx);
    }
};
} // namespace papilio

namespace c12
{
#if SIM_PART == 1
void call1(Out<char>& o, const Call<char>& k, Pack<char>&, Extra<char>& x) { extra_call<char>(o, k, x, 0, h_count); }
#elif SIM_PART == 2
void call1(Out<wchar_t>& o, const Call<wchar_t>& k, Pack<wchar_t>&, Extra<wchar_t>& x) { extra_call<wchar_t>(o, k, x, 0, h_count); }
#elif SIM_PART == 3
void call2(Out<char>& o, const Call<char>& k, Pack<char>& p, Extra<char>&) { pack_call<char>(o, k, p); }
#elif SIM_PART == 4
void call2(Out<wchar_t>& o, const Call<wchar_t>& k, Pack<wchar_t>& p, Extra<wchar_t>&) { pack_call<wchar_t>(o, k, p); }
#else
Pool& pool()
{
    static Pool* p = []
    {
        Harness h;
        auto* p = new Pool;
        const std::locale& c = std::locale::classic();
        p->loc.push_back(c);
        p->loc.push_back(std::locale(std::locale(c, new Punct<char>), new Punct<wchar_t>));
        p->c.push_back("C");
        p->thr.push_back(LC_GLOBAL_LOCALE);
        for(const char* n : {"C.utf8", "de_DE.UTF-8", "tr_TR.UTF-8"})
        {
            try
            {
                p->loc.push_back(std::locale(n));
            }
            catch(const std::runtime_error&)
            {
                continue;
            }
            p->c.push_back(n);
            p->thr.push_back(newlocale(LC_ALL_MASK, n, nullptr));
        }
        p->loc.push_back(std::locale(p->loc.back(), new Punct<char>)); // narrow and wide disagree
        return p;
    }();
    return *p;
}
namespace
{
Env now, next;
std::string now_c;
locale_t now_thr;
u64 flip_at;
bool flipped, flip_armed;

void apply(const Env& e)
{
    Harness h;
    std::locale::global(pool().loc[e.cpp]);
    std::setlocale(LC_ALL, pool().c[e.c]);
    uselocale(pool().thr[e.thr]);
    now = e;
    now_c = std::setlocale(LC_ALL, nullptr);
    now_thr = uselocale((locale_t)0);
    errno = e.err;
}
void on_visit()
{
    if(!flip_armed) return;
    if(flip_at--) return;
    flip_armed = false;
    flipped = true;
    fault("environment-changes-inside-a-call");
    apply(next);
}
void check_env(const char* how, bool errno_too)
{
    int err = errno;
    Harness h;
    if(errno_too && err != now.err) fail("errno-changed", "%s changed errno from %d to %d", how, now.err, err);
    if(std::locale() != pool().loc[now.cpp]) fail("global-locale-changed", "%s changed the global C++ locale", how);
    if(now_c != std::setlocale(LC_ALL, nullptr)) fail("global-locale-changed", "%s changed the C locale from %s to %s", how, now_c.c_str(), std::setlocale(LC_ALL, nullptr));
    if(now_thr != uselocale((locale_t)0)) fail("global-locale-changed", "%s changed the thread's locale", how);
}
Env random_env()
{
    static const int errs[] = {0, ERANGE, EINVAL, EILSEQ, 12345};
    Env e;
    e.cpp = (int)draw(pool().loc.size());
    e.c = (int)draw(pool().c.size());
    e.thr = (int)draw(pool().thr.size());
    e.err = pick(errs);
    return e;
}

template <typename C>
std::string by_stream(const std::locale& loc, auto&& put)
{
    std::basic_ostringstream<C> os;
    os.imbue(loc);
    put(os);
    auto s = os.str();
    std::string r; // UTF-8
    for(C c : s)
    {
        if(sizeof(C) == 1 || (unsigned long)c < 0x80) r += (char)c;
        else papilio::utf::codepoint((char32_t)c).append_to(r);
    }
    return r;
}
std::string pf(const char* f, auto v)
{
    char b[400];
    std::snprintf(b, sizeof b, f, v);
    return b;
}

// replacement fields over the extra arguments; `loc` is the locale in force
template <typename C>
Piece extra_piece(const Extra<C>& x, const std::locale* loc, bool by_index, bool& known)
{
    const std::locale& cl = std::locale::classic();
    auto tm = [&](const std::locale& l, const char* f) { return by_stream<C>(l, [&](auto& os) { os << std::put_time(&x.tm, W<C>(f).c_str()); }); };
    auto num = [&](const std::locale& l) { return by_stream<C>(l, [&](auto& os) { os << x.num; }); };
    std::string d = by_index || draw(2) ? "3" : "d", n = by_index || draw(2) ? "1" : "num";
    using P = Pack<C>;
    switch(draw(26))
    {
    case 0: return {"{" + n + "}", num(cl)};
    case 1: return {"{" + n + ":*>60}", P::pad(num(cl), '>', '*', 60)};
    case 2: return {"{0:%A %d %B %Y}", tm(cl, "%A %d %B %Y")};
    case 3: return {"{0:%x %X %p}", tm(cl, "%x %X %p")};
    case 4: return {"{2}", x.b ? "true" : "false"};
    case 5: return {"{2:d}", x.b ? "1" : "0"};
    case 6: return {"{" + d + "}", pf("%g", x.d)};
    case 7: return {"{" + d + ":.3f}", pf("%.3f", x.d)};
    case 8: return {"{" + d + ":e}", pf("%.6e", x.d)};
    case 9: return {"{" + d + ":12.2f}", pf("%12.2f", x.d)};
    case 10: return {"{4}", std::to_string(x.l)};
    case 11: return {"{4:X}", (x.l < 0 ? "-" : "") + pf("%lX", std::labs(x.l))};
    case 12: return {"{$ {" + d + "} > 1.5 ? 'more' : 'less'}", x.d > 1.5 ? "more" : "less"};
    case 13: return {"{$ {" + d + "} == 1234.5 ? 'same' : 'other'}", x.d == 1234.5 ? "same" : "other"};
    case 14: return {"{$ 0.25 >= {" + d + "} ? '" + W<char>("small") + "' : {4}}", 0.25 >= x.d ? "small" : std::to_string(x.l)};
    case 15: return {"{5}", x.path.string()};
    case 16:
        return {"{6}", by_stream<C>(cl, [&](auto& os) { os << x.deep.n; }) + "/" + by_stream<C>(cl, [&](auto& os) { os << std::put_time(&x.deep.tm, W<C>("%A").c_str()); }) + "/" + pf("%.2f", x.deep.d) + " " + by_stream<C>(*loc, [&](auto& os) { os << x.deep.n; })};
    case 17: return {"{7}", P::n(x.s)};
    // with the L option
    case 18:
        return {"{" + n + ":L}", num(*loc)};
    case 19:
        return {"{0:L%A %B}", tm(*loc, "%A %B")};
    case 20:
    case 21:
        {
            auto& np = std::use_facet<std::numpunct<C>>(*loc);
            auto s = x.b ? np.truename() : np.falsename();
            return {"{2:L}", P::n(s)};
        }
    case 22:
        return known = false, Piece{"{" + d + ":L}{4:L}", ""};
    case 23:
        return {"{0:L%x}", tm(*loc, "%x")};
    case 24: return known = false, Piece{"{" + d + ":G}{" + d + ":A}{4:#o}{4:#b}{0}", ""};
    default: break;
    }
    return {"-", "-"};
}

template <typename C>
void call_any(Out<C>& o, const Call<C>& k, Pack<C>& p, Extra<C>& x)
{
    if(k.pack) call2(o, k, p, x);
    else call1(o, k, p, x);
}

template <typename C>
void run_as()
{
    static const double ds[] = {0, 1.5, 1234.5, -0.125, 1e10, 2.5, 0.25};
    Pack<C> p;
    Extra<C> x{{}, {(long)draw(3) * 1234567, (bool)draw(2)}, (bool)draw(2), pick(ds), (long)draw(3) * 987654, draw(2) ? "a/b c" : "dir/caf\xC3\xA9", {}, W<C>(Pack<C>::words())};
    x.tm.tm_year = 100 + (int)draw(30);
    x.tm.tm_mon = (int)draw(12);
    x.tm.tm_mday = 1 + (int)draw(28);
    x.tm.tm_hour = (int)draw(24);
    x.tm.tm_wday = (int)draw(7);
    x.deep = {x.num, pick(ds), x.tm};
    x.deep.tm.tm_wday = (int)draw(7);

    // everything is planned, and its text determined, in the neutral environment
    std::vector<Call<C>> calls;
    for(u64 n = range(1, 6); n--;)
    {
        op_begin();
        Call<C> k;
        k.loc = (int)draw(pool().loc.size());
        k.n = (long)draw(20);
        k.state = (int)draw(32);
        std::string fmt, text;
        if(chance(1, 4))
        {
            static const int hows[] = {h_format, h_format_loc, h_to};
            k.pack = true;
            k.how = pick(hows);
            Program g = program(p, 3);
            fmt = g.fmt;
            text = g.text;
        }
        else
        {
            k.how = (int)draw(sizeof(C) == 1 ? h_count : h_os);
            const std::locale* loc = &pool().loc[k.how == h_format_loc || k.how == h_to_loc || (k.how >= h_vformat_loc && k.how <= h_os) ? k.loc : 0];
            for(u64 m = range(1, 4); m--;)
            {
                Piece q = extra_piece(x, loc, k.how == h_dyn, k.known);
                fmt += q.fmt;
                text += q.text;
            }
        }
        k.fmt = W<C>(fmt);
        k.show = std::string(how_name[k.how]) + " of \"" + fmt + "\"";
        if(k.known) k.text = W<C>(text);
        else
        {
            Out<C> o;
            Call<C> k2 = k;
            if(k2.how == h_size || k2.how == h_n) k2.how = h_format;
            if(k2.how == h_size_loc || k2.how == h_n_loc) k2.how = h_format_loc;
            call_any(o, k2, p, x);
            k.text = o.text;
        }
        calls.push_back(std::move(k));
    }
    // now the same in one environment after another
    for(auto& k : calls)
        for(u64 rep = range(1, 2); rep--;)
        {
            op_begin();
            Env e = random_env();
            next = random_env();
            bool flip = chance(1, 2);
            u64 at = draw(12);
            int what = (int)draw(8); // 5: an allocation fails, 6: user code throws, 7: a bad call first
            u64 kth = draw(16);
            int kind = (int)draw(k_count);
            ev("%s: env cpp=%d c=%d thr=%d errno=%d flip=%d@%llu fault=%d@%llu", k.show.c_str(), e.cpp, e.c, e.thr, e.err, flip, (unsigned long long)at, what, (unsigned long long)kth);
            apply(e);
            if(what == 7)
            {
                Sut s;
                try
                {
                    papilio::format(W<C>("{0:zz}{"), x.num);
                }
                catch(const papilio::format_error&)
                {
                }
                probe("failed-call-before");
            }
            Out<C> o;
            bool threw = false;
            std::string err;
            flipped = false;
            flip_armed = flip;
            flip_at = at;
            Points::reset();
            Points::visit = on_visit;
            errno = now.err;
            int err_after = 0;
            {
                Sut s;
                if(what == 5) arm_oom(draw(2) ? Oom::once : Oom::persistent, kth);
                if(what == 6) Points::arm(kth, kind);
                errno = now.err;
                try
                {
                    call_any(o, k, p, x);
                    err_after = errno;
                }
                catch(const std::exception& ex)
                {
                    disarm_oom();
                    Harness h;
                    threw = true;
                    err = ex.what();
                }
                catch(...)
                {
                    disarm_oom();
                    threw = true;
                }
            }
            u64 fired = (what == 5 ? oom_fired() : 0) + Points::fired;
            disarm_oom();
            Points::armed = false;
            Points::visit = nullptr;
            flip_armed = false;
            mark_state(((((u64)k.how * 8 + now.cpp) * 8 + now.c) * 8 + now.thr) * 8 + (fired ? 4 : 0) + flipped);
            if(now.cpp || now.c || now.thr) nontrivial();
            if(fired) probe("fault-in-a-foreign-environment");
            if(flipped) probe("environment-changed-inside-a-call");
            errno = err_after;
            check_env(k.show.c_str(), !fired && !threw && k.how != h_file && k.how != h_os && !flipped);
            if(threw)
            {
                if(!fired) fail("unexpected-error", "%s failed with %s in environment %d/%d", k.show.c_str(), err.c_str(), now.cpp, now.c);
                continue;
            }
            bool ok = k.how == h_size || k.how == h_size_loc ? o.size == (long)k.text.size() : k.how == h_n || k.how == h_n_loc ? o.text == k.text.substr(0, std::min<std::size_t>(k.text.size(), k.n)) : o.text == k.text;
            if(!ok)
            {
                Env was = now;
                apply(Env{});
                fail("environment-shows", "%s gave \"%s\" (%ld) instead of \"%s\" in environment cpp=%d c=%s thread=%d", k.show.c_str(), N<C>(o.text).c_str(), o.size, N<C>(k.text).c_str(), was.cpp, pool().c[was.c], was.thr);
            }
        }
}

void run()
{
    static bool once = (pool(), true);
    (void)once;
    Ledger::live = 0;
    Points::reset();
    apply(Env{});
    struct Back
    {
        ~Back()
        {
            Points::visit = nullptr;
            flip_armed = false;
            apply(Env{});
        }
    } back;
    auto flags = std::cout.flags();
    auto loc = std::cout.getloc();
    if(chance(1, 3)) run_as<wchar_t>();
    else run_as<char>();
    if(std::cout.flags() != flags || std::cout.getloc() != loc) fail("stream-state", "formatting changed the state of std::cout");
}
} // namespace
#endif
} // namespace c12

#if SIM_PART == 0
const Property sim::property = {
    "C12", c12::run, 250000, 2500000, 60000000,
    "1-6 format strings (locale-sensitive fields of every kind, script literals with fractions, nested formatting, the 23-argument workload) planned with their text in the neutral environment, then run through 11 output paths while the global C++ locale (user facets, German, Turkish), the C locale, the thread's locale, errno and the printing stream's state vary from call to call and flip in the middle of calls, after failed calls and with failing allocations and throwing user code; non-trivial: the environment is not neutral",
    "all of src/ and include/, libstdc++ streams and locale facets, glibc locales (German and Turkish compiled with localedef)",
    "user types, output iterators"};
#endif
