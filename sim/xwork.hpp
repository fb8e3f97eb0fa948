// Formatting workload for the character types of <papilio/xchar.hpp> (char8_t, char16_t, char32_t):
// fewer kinds of arguments than fmtwork's Pack, every entry point those types have.
#pragma once
#include "fmtwork.hpp"
#include <papilio/xchar.hpp>
#include <list>

namespace xw
{
using namespace fw;

template <typename C>
struct XPack
{
    using S = std::basic_string<C>;
    using P = Pack<char>;
    int i, w;
    S s, u;
    std::string utext;
    double d;
    Fmt f;
    SFmt sf;
    std::vector<S> vs;
    std::map<S, int> mi;
    Rec<C> r;
    C ch;
    std::optional<Fmt> o;
    Lazy lz;
    XPack()
        : i((int)range(0, 20) - 10), w((int)range(1, 12)), s(W<C>(P::words0())), utext(P::uni(5)), d((double)((long)draw(64) - 32) / 8), f(P::words()), sf((int)draw(10)),
          r{W<C>(P::words()), (int)draw(10), Fmt(P::words()), {}}, ch(C('a' + draw(26))), lz{(int)draw(4)}
    {
        u = W<C>(utext);
        for(u64 n = range(1, 3); n--;) vs.push_back(W<C>(P::words()));
        mi[W<C>("abc")] = (int)draw(100);
        r.list = {(int)draw(100), (int)draw(100), (int)draw(100)};
        if(draw(2)) o.emplace(P::words());
    }
    template <typename F>
    decltype(auto) apply(F&& fn)
    {
        static const S ni = W<C>("n"), ns = W<C>("s"), nr = W<C>("r");
        using papilio::arg;
        return fn(i, s, d, f, sf, vs, mi, ch, o, lz, u, w, arg(ni.c_str(), i), arg(ns.c_str(), s), arg(nr.c_str(), r));
    }
    static std::string n(const S& x) { return std::string(x.begin(), x.end()); }
    std::string print() const
    {
        std::string x = n(s) + '|' + f.text + '|' + n(r.name) + '|' + r.fmt.text + '|' + (o ? o->text : "-") + '|';
        for(auto& e : vs) x += n(e) + ',';
        return x + std::to_string(i) + ',' + std::to_string(mi.begin()->second) + ',' + std::to_string(sf.v) + ',' + std::to_string(r.num);
    }
    static std::string fs(const Fmt& x) { return "<" + x.text + ">"; }

    Piece field() const
    {
        auto id = [](int a, const char* named) { return named && draw(2) ? std::string(named) : std::to_string(a); };
        auto str = [&](std::string name, const std::string& x)
        {
            switch(draw(4))
            {
            case 0: return Piece{name, x};
            case 1: {
                std::string w2 = std::to_string(range(1, 30));
                return Piece{name + ":*^" + w2, P::pad(x, '^', '*', std::stoul(w2))};
            }
            case 2: return Piece{name + ":>{11}", P::pad(x, '>', ' ', w)};
            default: {
                u64 k = range(1, 20);
                return Piece{name + ":." + std::to_string(k), x.substr(0, k)};
            }
            }
        };
        switch(draw(20))
        {
        case 0: return {id(0, "n"), std::to_string(i)};
        case 1: return {id(0, "n") + ":+", (i >= 0 ? "+" : "") + std::to_string(i)};
        case 2: return str(id(1, "s"), n(s));
        case 3: return {std::to_string(2), P::num(d)};
        case 4: return {"3:u", "<" + P::up(f.text) + ">"};
        case 5: return {"3", fs(f)};
        case 6: return {"4:#", "[#" + std::to_string(sf.v) + "]"};
        case 7: return str("5[0]", n(vs[0]));
        case 8: return str("5[-1]", n(vs.back()));
        case 9: return {"6['abc']", std::to_string(mi.begin()->second)};
        case 10: return {"7", std::string(1, (char)ch)};
        case 11: return {"8", o ? fs(*o) : "nullopt"};
        case 12:
        {
            std::string t;
            for(int k = 0; k < lz.n; ++k) t += (k ? ", " : "") + std::to_string(k * 3);
            return {"9", "[" + t + "]"};
        }
        case 13: return {"10", utext};
        case 14: return str("r.rec.copy", n(r.name));
        case 15: return {"r.own:u", "<" + P::up(r.fmt.text) + ">"};
        case 16: return str("r.name", n(r.name));
        case 17: return {"r.lcopy[1:3]", "[" + std::to_string(r.list[1]) + ", " + std::to_string(r.list[2]) + "]"};
        case 18: return {"r.small", "[" + std::to_string(r.num) + "]"};
        default: return {"11:x", [&] { char b[20]; std::snprintf(b, sizeof b, "%x", w); return std::string(b); }()};
        }
    }
    Piece piece() const
    {
        u64 k = draw(8);
        if(k == 0)
        {
            std::string x = draw(2) ? P::word(1, 20) : P::uni(5);
            return {x, x};
        }
        if(k == 1) return draw(2) ? Piece{"{{", "{"} : Piece{"}}", "}"};
        if(k == 7)
        {
            Piece a = field(), b = field();
            bool t;
            std::string c;
            switch(draw(4))
            {
            case 0: c = "{n} > 2", t = i > 2; break;
            case 1: c = "!{s}", t = s.empty(); break;
            case 2: c = "{r.rec.copy} == {r.rec.name}", t = true; break;
            default: c = "{r.name} != '" + n(r.name) + "'", t = false;
            }
            return {"{$ " + c + " ? {" + a.fmt + "} : {" + b.fmt + "}}", t ? a.text : b.text};
        }
        Piece f2 = field();
        return {"{" + f2.fmt + "}", f2.text};
    }
    Program program(u64 max_pieces) const
    {
        Program g;
        for(u64 m = range(1, max_pieces), k = 0; k < m; ++k)
        {
            op_begin();
            g.pieces.push_back(piece());
            g.fmt += g.pieces.back().fmt;
            g.text += g.pieces.back().text;
        }
        return g;
    }
};
} // namespace xw

namespace xw
{
enum XHow : int
{
    x_format,
    x_vformat,
    x_dynamic,
    x_back,
    x_vto,
    x_sink,
    x_size,
    x_n_sink,
    x_count
};
static const char* const x_name[] = {"format", "vformat", "vformat(dynamic store)", "format_to(back_inserter)", "vformat_to(iterator)", "format_to(iterator)", "formatted_size", "format_to_n(iterator)"};

// An output iterator that cannot take more than `room` characters and may throw.
struct XSinkThrow
{
};
template <typename C>
struct XSink
{
    std::basic_string<C> text;
    std::size_t room = (std::size_t)-1;
    long at = -1; // throws when asked to write this character
    bool thrown = false;
};
template <typename C>
struct XIt
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    XSink<C>* s;
    std::size_t pos = 0;
    XIt& operator*() { return *this; }
    XIt& operator++() { return *this; }
    XIt operator++(int) { return *this; }
    XIt& operator=(C c)
    {
        bool boom = false;
        {
            Harness h;
            if(s->thrown) flag("write-after-throw", "a character was written to the output iterator after it had thrown");
            if(s->text.size() >= s->room) flag("beyond-bound", "a character was written beyond the bound of the output");
            if(pos != s->text.size()) flag("stale-iterator", "a character was written through an outdated copy of the output iterator");
            if((long)s->text.size() == s->at)
            {
                s->thrown = boom = true;
                fault("throwing-iterator");
            }
            else s->text += c;
            ++pos;
        }
        if(boom) throw XSinkThrow{};
        return *this;
    }
};

template <typename C>
struct XRes
{
    std::basic_string<C> text;
    long size = -1, end = -1;
};
template <typename C>
void xcall(XRes<C>& r, int how, const std::basic_string<C>& fmt, XPack<C>& p, long n, XSink<C>& sink)
{
    using FCtx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
    using SCtx = papilio::basic_format_context<XIt<C>, C>;
    std::basic_string_view<C> f = fmt;
    auto fwd = [&](auto&& fn) -> decltype(auto) { return p.apply(fn); };
    switch(how)
    {
    case x_format: r.text = fwd([&](auto&&... a) { return papilio::format(f, a...); }); break;
    case x_vformat: r.text = fwd([&](auto&&... a) { return papilio::vformat(f, papilio::make_format_args<FCtx>(a...)); }); break;
    case x_dynamic:
    {
        papilio::basic_dynamic_format_args<FCtx, C> store;
        fwd([&](auto&&... a) { store.append(a...); });
        r.text = papilio::vformat(f, store);
        break;
    }
    case x_back: fwd([&](auto&&... a) { papilio::format_to(std::back_inserter(r.text), f, a...); }); break;
    case x_vto: r.end = (long)fwd([&](auto&&... a) { return papilio::vformat_to(XIt<C>{&sink}, f, papilio::make_format_args<SCtx>(a...)); }).pos; break;
    case x_sink: r.end = (long)fwd([&](auto&&... a) { return papilio::format_to(XIt<C>{&sink}, f, a...); }).pos; break;
    case x_size: r.size = (long)fwd([&](auto&&... a) { return papilio::formatted_size(f, a...); }); break;
    default:
    {
        auto e = fwd([&](auto&&... a) { return papilio::format_to_n(XIt<C>{&sink}, n, f, a...); });
        r.end = (long)e.out.pos;
        r.size = e.size;
    }
    }
}

enum class XMode
{
    paths, // every path gives the same text
    oom,   // allocations fail
    user   // user code or the output iterator throws
};
template <typename C>
void xrun(XMode mode)
{
    long ledger0 = Ledger::live;
    {
        XPack<C> p;
        Program g = p.program(4);
        bool broken = mode == XMode::paths && chance(1, 6);
        if(broken)
        {
            static const char* const bad[] = {"{99}", "{nosuch}", "{2:x}", "{r.nope}", "{6['zz']}", "{$ {0} 'a'}", "{0"};
            g.fmt += pick(bad);
            fault("format-error");
        }
        std::basic_string<C> fmt = W<C>(g.fmt), text = W<C>(g.text);
        ev("fmt \"%s\" for %zu-byte characters", esc(g.fmt, 300).c_str(), sizeof(C));
        mix_bytes(g.text.data(), g.text.size());
        const std::string print = p.print();
        std::string error;
        for(u64 calls = range(2, 6); calls--;)
        {
            op_begin();
            int how = (int)draw(x_count);
            bool bounded = how >= x_n_sink;
            long n = (long)range(0, text.size() + 3);
            std::size_t reach = bounded ? std::min<std::size_t>(n, text.size()) : text.size();
            std::basic_string<C> want = text.substr(0, reach);
            auto describe = [&] { return std::string(x_name[how]) + (bounded ? " n=" + std::to_string(n) : "") + " of \"" + g.fmt + "\" for " + std::to_string(sizeof(C)) + "-byte characters"; };
            u64 left0 = 0;
            enum
            {
                normal,
                bad_alloc,
                user,
                sink_threw,
                other
            };
            std::string what;
            XRes<C> r;
            XSink<C> sink;
            auto go = [&](Oom oom, u64 k, long at, int kind, u64 hit) -> int
            {
                int res = normal;
                r = XRes<C>();
                sink = XSink<C>();
                sink.at = at;
                if(how == x_n_sink) sink.room = (std::size_t)n;
                if(how == x_sink || how == x_vto) sink.room = text.size();
                left0 = live_blocks();
                Points::reset();
                {
                    Sut s;
                    if(oom != Oom::none) arm_oom(oom, k);
                    if(kind >= 0) Points::arm(hit, kind);
                    try
                    {
                        xcall(r, how, fmt, p, n, sink);
                    }
                    catch(const UserThrow&)
                    {
                        res = user;
                    }
                    catch(const XSinkThrow&)
                    {
                        res = sink_threw;
                    }
                    catch(int)
                    {
                        res = user;
                    }
                    catch(const UserAlloc&)
                    {
                        res = user;
                    }
                    catch(const std::bad_alloc&)
                    {
                        res = bad_alloc;
                    }
                    catch(const UserRuntime&)
                    {
                        res = user;
                    }
                    catch(const UserFormat&)
                    {
                        res = user;
                    }
                    catch(const UserRange&)
                    {
                        res = user;
                    }
                    catch(const UserIos&)
                    {
                        res = user;
                    }
                    catch(const std::exception& e)
                    {
                        disarm_oom();
                        Harness h;
                        res = other;
                        what = std::string(typeid(e).name()) + ": " + e.what();
                    }
                }
                u64 fired = oom_fired();
                disarm_oom();
                Points::armed = false;
                if(how == x_sink || how == x_vto || how == x_n_sink) r.text = sink.text;
                if(p.print() != print) fail("argument-changed", "%s changed its arguments", describe().c_str());
                (void)fired;
                return res;
            };
            auto judge = [&](const char* when)
            {
                if(how != x_size && r.text != want) fail("wrong-text", "%s %s gave \"%s\", expected \"%s\"", when, describe().c_str(), N<C>(r.text).c_str(), N<C>(want).c_str());
                if((how == x_size || bounded) && r.size != (long)reach) fail("wrong-count", "%s %s reported %ld characters, expected %zu", when, describe().c_str(), r.size, reach);
                if(r.end >= 0 && r.end != (long)reach) fail("wrong-end", "%s %s returned an iterator at %ld, expected %zu", when, describe().c_str(), r.end, reach);
            };
            auto leaks = [&](const char* when)
            {
                r = XRes<C>();
                r.text.shrink_to_fit();
                if(leaked_since(left0)) fail("leak", "%s %s left %llu blocks allocated", when, describe().c_str(), (unsigned long long)(live_blocks() - left0));
            };
            u64 a0 = sut_allocs();
            int res = go(Oom::none, 0, -1, -1, 0);
            u64 total = sut_allocs() - a0, hits = Points::hits;
            ev("%s n=%ld -> %d \"%s\" %s", x_name[how], n, res, esc(N<C>(r.text), 80).c_str(), what.c_str());
            mark_state((((u64)how * 4 + (u64)mode) * 8 + sizeof(C)) * 16 + std::min<u64>(bounded ? n : 0, 15));
            if(broken)
            {
                nontrivial();
                if(res == normal && (!bounded || n > (long)text.size())) fail("no-error", "%s returned normally", describe().c_str());
                if(res != normal && res != other) fail("wrong-error", "%s failed with outcome %d", describe().c_str(), res);
                if(res == other)
                {
                    if(!error.empty() && error != what) fail("different-error", "%s failed with %s, another path with %s", describe().c_str(), what.c_str(), error.c_str());
                    error = what;
                    bool shows = how == x_back || how == x_vto || how == x_sink || how == x_n_sink;
                    if(shows && r.text != want) fail("wrong-text", "%s produced \"%s\" before the error, expected \"%s\"", describe().c_str(), N<C>(r.text).c_str(), N<C>(want).c_str());
                }
                leaks("broken:");
                continue;
            }
            if(res != normal) fail("unexpected-error", "%s failed with %s", describe().c_str(), what.c_str());
            judge("");
            leaks("");
            if(bounded && n < (long)text.size()) nontrivial();
            if(mode == XMode::oom && total)
            {
                Oom o = draw(3) == 2 ? Oom::bigger : draw(2) ? Oom::persistent : Oom::once;
                u64 k = o == Oom::bigger ? range(1, 120) : draw(total);
                res = go(o, k, -1, -1, 0);
                ev("  oom %d k=%llu -> %d", (int)o, (unsigned long long)k, res);
                if(res != normal && res != bad_alloc) fail("wrong-exception", "%s: a failed allocation came out as outcome %d \"%s\"", describe().c_str(), res, what.c_str());
                if(res == normal) judge("failed allocation unnoticed:");
                else nontrivial();
                leaks("failed:");
                if(go(Oom::none, 0, -1, -1, 0) != normal) fail("unexpected-error", "%s failed with %s when repeated", describe().c_str(), what.c_str());
                judge("retry:");
            }
            if(mode == XMode::user)
            {
                bool by_sink = (how == x_sink || how == x_vto || how == x_n_sink) && draw(2);
                if(!by_sink && !hits) continue;
                u64 k = by_sink ? draw(want.size() + 1) : draw(hits);
                int kind = (int)draw(k_count);
                res = go(Oom::none, 0, by_sink ? (long)k : -1, by_sink ? -1 : kind, k);
                ev("  %s throws at %llu -> %d", by_sink ? "iterator" : "user code", (unsigned long long)k, res);
                bool should = !by_sink || k < want.size();
                if(should) nontrivial();
                if(res != (!should ? normal : by_sink ? sink_threw : user)) fail(res == normal ? "swallowed" : "wrong-exception", "%s: %s threw and the outcome was %d \"%s\"", describe().c_str(), by_sink ? "the iterator" : "user code", res, what.c_str());
                if(should && (how == x_sink || how == x_vto || how == x_n_sink || how == x_back))
                {
                    if(r.text.size() > want.size() || want.compare(0, r.text.size(), r.text) != 0 || (by_sink && r.text.size() != k))
                        fail("wrong-prefix", "%s: \"%s\" had been written when it threw", describe().c_str(), N<C>(r.text).c_str());
                }
                leaks("thrown:");
                if(go(Oom::none, 0, -1, -1, 0) != normal) fail("unexpected-error", "%s failed with %s when repeated", describe().c_str(), what.c_str());
                judge("again:");
            }
        }
    }
    if(Ledger::live != ledger0) fail("object-count", "%ld user objects too many or too few", Ledger::live - ledger0);
}
} // namespace xw

// Compiled once per character type, in parts of their own.
void xrun8(xw::XMode m);
void xrun16(xw::XMode m);
void xrun32(xw::XMode m);
inline void xrun_any(xw::XMode m)
{
    switch(sim::draw(3))
    {
    case 0: return xrun8(m);
    case 1: return xrun16(m);
    default: return xrun32(m);
    }
}
#ifdef X_FIRST
#    if SIM_PART == X_FIRST
void xrun8(xw::XMode m) { xw::xrun<char8_t>(m); }
#    elif SIM_PART == X_FIRST + 1
void xrun16(xw::XMode m) { xw::xrun<char16_t>(m); }
#    elif SIM_PART == X_FIRST + 2
void xrun32(xw::XMode m) { xw::xrun<char32_t>(m); }
#    endif
#endif
