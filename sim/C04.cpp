// C04: a failed allocation inside formatting surfaces as bad_alloc and nothing else.
// SIM: parts=5 xchar
#define X_FIRST 2
#include "xwork.hpp"
#include <iterator>
#include <locale>

using namespace sim;
using namespace fw;

namespace
{
enum How : int
{
    h_format,
    h_vformat,
    h_format_to,
    h_size,
    h_to_n,
    h_locale,
    h_dynamic,
    h_twice,
    h_count
};
const char* how_name[] = {"format", "vformat", "format_to", "formatted_size", "format_to_n", "format(locale)", "dynamic args + vformat", "store used twice"};

template <typename C>
struct Out
{
    std::basic_string<C> text;
    long size = -1;
    bool operator==(const Out&) const = default;
};

template <typename C>
Out<C> call(int how, const std::basic_string<C>& fmt, Pack<C>& p, long n)
{
    using V = std::basic_string_view<C>;
    using Ctx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
    Out<C> o;
    V f = fmt;
    auto fwd = [&](auto&& fn) { return p.apply([&](auto&&... a) { return fn(std::forward<decltype(a)>(a)...); }); };
    switch(how)
    {
    case h_format: o.text = fwd([&](auto&&... a) { return papilio::format(f, std::forward<decltype(a)>(a)...); }); break;
    case h_vformat:
        o.text = fwd([&](auto&&... a) { return papilio::vformat(f, papilio::make_format_args<Ctx>(std::forward<decltype(a)>(a)...)); });
        break;
    case h_format_to:
        fwd([&](auto&&... a) { return papilio::format_to(std::back_inserter(o.text), f, std::forward<decltype(a)>(a)...); });
        break;
    case h_size: o.size = (long)fwd([&](auto&&... a) { return papilio::formatted_size(f, std::forward<decltype(a)>(a)...); }); break;
    case h_to_n:
    {
        std::unique_ptr<C[]> buf(new C[n + 1]());
        auto r = fwd([&](auto&&... a) { return papilio::format_to_n(buf.get(), n, f, std::forward<decltype(a)>(a)...); });
        o.text.assign(buf.get(), (std::size_t)r.size);
        o.size = r.out - buf.get();
        break;
    }
    case h_locale: o.text = fwd([&](auto&&... a) { return papilio::format(std::locale::classic(), f, std::forward<decltype(a)>(a)...); }); break;
    case h_dynamic:
    {
        papilio::basic_dynamic_format_args<Ctx, C> store;
        fwd([&](auto&&... a) { store.append(std::forward<decltype(a)>(a)...); });
        o.text = papilio::vformat(f, store);
        break;
    }
    default:
    {
        auto store = fwd([&](auto&&... a) { return papilio::make_format_args<Ctx>(std::forward<decltype(a)>(a)...); });
        o.text = papilio::vformat(f, store);
        o.text += papilio::vformat(f, store);
        break;
    }
    }
    return o;
}

// A format string in error: the failed allocation or the error itself comes out, nothing else.
template <typename C>
void erroneous(Pack<C>& p)
{
    static const char* const bad[] = {"{s.nope}", "{r.nope}", "{r.a_name_that_is_longer_than_any_buffer_inside_a_string}", "{0:!}", "{999}", "{nope}", "{", "}", "{0[", "{7[99]}", "{8['zz']}", "{f:x}",
                                      "{$ {0} ? }", "{$ {nope} ? 'x'}", "{$ {n} ? 'x' : {nope}}", "{10[5]}", "{s[x}", "{s:{s}}", "{r.copy.nope}", "{n.nope}", "{s['k']}", "{$ {s} ? 'unterminated}"};
    Program g;
    if(draw(2)) g = program(p, 3);
    std::string f = g.fmt + pick(bad);
    if(draw(2)) f += Pack<C>::word(0, 8);
    std::basic_string<C> fmt = W<C>(f);
    int how = (int)draw(h_count);
    long n = (long)draw(12);
    ev("bad fmt \"%s\" by %s", esc(f, 300).c_str(), how_name[how]);
    enum
    {
        normal,
        bad_alloc,
        error
    };
    std::string what;
    u64 fired = 0;
    auto go = [&](bool oom, Oom mode, u64 k) -> int
    {
        int r = normal;
        what.clear();
        Sut s;
        if(oom) arm_oom(mode, k);
        try
        {
            Out<C> o = call(how, fmt, p, n);
        }
        catch(const std::bad_alloc&)
        {
            r = bad_alloc;
        }
        catch(const std::exception& e)
        {
            fired = oom_fired();
            disarm_oom();
            Harness h;
            r = error;
            what = e.what();
        }
        if(oom && r != error) fired = oom_fired();
        disarm_oom();
        return r;
    };
    int ref = go(false, Oom::none, 0);
    std::string ref_what = what;
    if(ref == bad_alloc) fail("spurious", "%s of \"%s\" threw bad_alloc although no allocation failed", how_name[how], f.c_str());
    u64 a0 = sut_allocs(), blocks0 = live_blocks();
    if(go(false, Oom::none, 0) != ref || what != ref_what) fail("wrong-result", "%s of \"%s\" reports \"%s\" at first and \"%s\" the second time", how_name[how], f.c_str(), ref_what.c_str(), what.c_str());
    if(leaked_since(blocks0)) fail("leak", "%s of \"%s\" left %llu blocks allocated", how_name[how], f.c_str(), (unsigned long long)(live_blocks() - blocks0));
    u64 total = sut_allocs() - a0;
    if(!total) return;
    for(u64 tries = range(1, 3), t = 0; t < tries; ++t)
    {
        op_begin();
        Oom mode = draw(4) == 3 ? Oom::bigger : draw(2) ? Oom::persistent : Oom::once;
        u64 k = mode == Oom::bigger ? range(1, 120) : draw(total);
        fired = 0;
        int r = go(true, mode, k);
        ev("  oom mode=%d k=%llu fired=%llu outcome=%d", (int)mode, (unsigned long long)k, (unsigned long long)fired, r);
        mark_state((((u64)how * 4 + (u64)mode) * 16 + std::min<u64>(k, 15)) * 4 + 2 + (r == error));
        if(fired) nontrivial(), probe("allocation-failed-near-an-error");
        if(r == bad_alloc && !fired) fail("spurious", "%s of \"%s\" threw bad_alloc although no allocation failed", how_name[how], f.c_str());
        if(r != bad_alloc && (r != ref || what != ref_what))
            fail("wrong-exception", "%s of \"%s\": with a failed allocation it gave \"%s\" (%d) instead of \"%s\" (%d)", how_name[how], f.c_str(), what.c_str(), r, ref_what.c_str(), ref);
        if(leaked_since(blocks0)) fail("leak", "%s of \"%s\" leaked %llu blocks when an allocation failed", how_name[how], f.c_str(), (unsigned long long)(live_blocks() - blocks0));
    }
}

template <typename C>
void run_as()
{
    long ledger0 = Ledger::live;
    {
        Pack<C> p;
        if(chance(1, 4)) erroneous(p);
        Program g = program(p, 5);
        std::basic_string<C> fmt = W<C>(g.fmt), text = W<C>(g.text);
        ev("fmt \"%s\"", esc(g.fmt, 300).c_str());
        mix_bytes(g.text.data(), g.text.size());
        const std::string print = p.print();
        for(u64 calls = range(1, 4), q = 0; q < calls; ++q)
        {
            op_begin();
            int how = (int)draw(h_count);
            long n = (long)draw(g.text.size() + 4);
            Out<C> want;
            std::size_t wn = std::min<std::size_t>(n, text.size());
            if(how == h_size) want.size = (long)text.size();
            else if(how == h_to_n) want.text = text.substr(0, wn), want.size = (long)wn;
            else want.text = how == h_twice ? text + text : text;

            auto judge = [&](const Out<C>& got, const char* when)
            {
                if(!(got == want))
                    fail("wrong-result", "%s %s of \"%s\" gave \"%s\" (%ld), expected \"%s\" (%ld)", when, how_name[how], g.fmt.c_str(), N<C>(got.text).c_str(), got.size, N<C>(want.text).c_str(), want.size);
            };
            // fault-free, outside the tracked scope first (one-time initialisation of the C++ library)
            judge(call(how, fmt, p, n), "first");
            u64 a0 = sut_allocs(), blocks0 = live_blocks();
            {
                Out<C> r;
                {
                    Sut s;
                    r = call(how, fmt, p, n);
                    Harness h;
                    judge(r, "second");
                    // r is destroyed in the tracked scope's counterpart below
                }
            }
            if(leaked_since(blocks0)) fail("leak", "%s of \"%s\" left %llu blocks allocated", how_name[how], g.fmt.c_str(), (unsigned long long)(live_blocks() - blocks0));
            u64 total = sut_allocs() - a0;
            ev("%s n=%ld allocs=%llu", how_name[how], n, (unsigned long long)total);
            if(!total) continue;
            for(u64 tries = range(1, 3), t = 0; t < tries; ++t)
            {
                Oom mode = draw(4) == 3 ? Oom::bigger : draw(2) ? Oom::persistent : Oom::once;
                u64 k = mode == Oom::bigger ? range(1, 120) : draw(total);
                enum
                {
                    normal,
                    bad_alloc,
                    other
                } what = normal;
                std::string name;
                Out<C> got;
                u64 fired;
                {
                    Sut s;
                    arm_oom(mode, k);
                    try
                    {
                        got = call(how, fmt, p, n);
                    }
                    catch(const std::bad_alloc&)
                    {
                        what = bad_alloc;
                    }
                    catch(const std::exception& e)
                    {
                        what = other;
                        fired = oom_fired();
                        disarm_oom();
                        Harness h;
                        name = e.what();
                    }
                    catch(...)
                    {
                        what = other;
                    }
                    fired = oom_fired();
                    disarm_oom();
                }
                if(p.print() != print) fail("argument-changed", "%s of \"%s\" changed its arguments: %s is now %s", how_name[how], g.fmt.c_str(), print.c_str(), p.print().c_str());
                ev("  oom mode=%d k=%llu fired=%llu outcome=%d", (int)mode, (unsigned long long)k, (unsigned long long)fired, (int)what);
                mark_state(((u64)how * 4 + (u64)mode) * 16 + std::min<u64>(k, 15));
                if(fired) nontrivial();
                if(what == other) fail("wrong-exception", "%s of \"%s\": a failed allocation came out as \"%s\"", how_name[how], g.fmt.c_str(), name.c_str());
                if(what == bad_alloc && !fired) fail("spurious", "%s of \"%s\" threw bad_alloc although no allocation failed", how_name[how], g.fmt.c_str());
                if(what == normal) judge(got, fired ? "failed allocation unnoticed:" : "fault-free");
                got = Out<C>();
                if(what == normal)
                {
                    got.text.shrink_to_fit();
                }
                if(leaked_since(blocks0)) fail("leak", "%s of \"%s\" leaked %llu blocks when an allocation failed", how_name[how], g.fmt.c_str(), (unsigned long long)(live_blocks() - blocks0));
                {
                    Out<C> again;
                    Sut s;
                    again = call(how, fmt, p, n);
                    Harness h;
                    judge(again, "retry:");
                }
            }
        }
    }
    if(Ledger::live != ledger0) fail("object-count", "%ld user objects too many or too few", Ledger::live - ledger0);
}

} // namespace

#if SIM_PART < 2
void run_wide();
#endif
#if SIM_PART == 1
void run_wide() { run_as<wchar_t>(); }
#elif SIM_PART == 0
namespace
{
void run()
{
    Points::reset();
    Ledger::live = 0;
    if(chance(1, 6)) xrun_any(xw::XMode::oom);
    else if(chance(1, 3)) run_wide();
    else run_as<char>();
}
} // namespace

const Property sim::property = {
    "C04", run, 200000, 2400000, 60000000,
    "random packs of 23 arguments (and vocabulary, time, path and wrapper types) and format strings of 1-5 pieces (literals, fields with access chains and automatic numbers, scripts), one run in six in char8_t, char16_t or char32_t, whose text the harness computes itself; eight entry points; the k-th allocation fails once, from then on, or allocations above a size fail; non-trivial: an allocation failed",
    "all of src/ and include/, libstdc++ streams and strings",
    "global operator new/delete (fault-injecting allocator), user types"};
#endif
