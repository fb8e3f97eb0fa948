// C05: an exception thrown by user code inside formatting reaches the caller unchanged.
// SIM: parts=5 xchar
#define X_FIRST 2
#include "xwork.hpp"
#include <locale>

using namespace sim;
using namespace fw;

namespace
{
// Output iterator over a string that throws when asked to write character number `at`.
template <typename C>
struct Sink
{
    std::basic_string<C> text;
    long at = -1;
    bool thrown = false;
    u64 id = 0;
};
struct SinkThrow
{
    u64 id;
};
template <typename C>
struct It
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    Sink<C>* s;
    It& operator*() { return *this; }
    It& operator++() { return *this; }
    It operator++(int) { return *this; }
    It& operator=(C c)
    {
        bool boom = false;
        {
            Harness h;
            if(s->thrown) flag("write-after-throw", "a character was written to the output iterator after it had thrown");
            if((long)s->text.size() == s->at)
            {
                s->thrown = boom = true;
                fault("throwing-iterator");
                ev("  ! iterator throws at character %ld", s->at);
            }
            else s->text += c;
        }
        if(boom) throw SinkThrow{s->id};
        return *this;
    }
};

enum How : int
{
    h_format,
    h_format_to,
    h_size,
    h_to_n,
    h_store,
    h_dynamic,
    h_locale,
    h_count
};
const char* how_name[] = {"format", "format_to", "formatted_size", "format_to_n", "vformat_to(store)", "vformat_to(dynamic store)", "vformat_to(locale)"};

template <typename C>
struct Call
{
    using V = std::basic_string_view<C>;
    using Ctx = papilio::basic_format_context<It<C>, C>;
    int how;
    long n;
    std::basic_string<C> fmt;
    Pack<C>& p;
    // result
    std::basic_string<C> text;
    long size = -1;

    template <typename F>
    decltype(auto) fwd(F&& fn)
    {
        return p.apply(std::forward<F>(fn));
    }
    void operator()(Sink<C>& sink)
    {
        V f = fmt;
        size = -1;
        It<C> out{&sink};
        switch(how)
        {
        case h_format:
        {
            auto r = fwd([&](auto&&... a) { return papilio::format(f, std::forward<decltype(a)>(a)...); });
            Harness h;
            sink.text = r;
            break;
        }
        case h_format_to: fwd([&](auto&&... a) { papilio::format_to(out, f, std::forward<decltype(a)>(a)...); }); break;
        case h_size: size = (long)fwd([&](auto&&... a) { return papilio::formatted_size(f, std::forward<decltype(a)>(a)...); }); break;
        case h_to_n: size = (long)fwd([&](auto&&... a) { return papilio::format_to_n(out, n, f, std::forward<decltype(a)>(a)...).size; }); break;
        case h_store:
        {
            auto store = fwd([&](auto&&... a) { return papilio::make_format_args<Ctx>(std::forward<decltype(a)>(a)...); });
            use(out, f, store, sink);
            break;
        }
        case h_dynamic:
        {
            papilio::basic_dynamic_format_args<Ctx, C> store;
            fwd([&](auto&&... a) { store.append(std::forward<decltype(a)>(a)...); });
            use(out, f, store, sink);
            break;
        }
        default:
            fwd([&](auto&&... a) { papilio::vformat_to(out, std::locale::classic(), f, papilio::make_format_args<Ctx>(std::forward<decltype(a)>(a)...)); });
            break;
        }
    }
    // the same store again after a failure: must give the normal result
    template <typename Store>
    void use(It<C> out, V f, const Store& store, Sink<C>& sink)
    {
        try
        {
            papilio::vformat_to(out, f, store);
        }
        catch(...)
        {
            std::basic_string<C> again;
            Sink<C> s2;
            papilio::vformat_to(It<C>{&s2}, f, store);
            Harness h;
            reused = s2.text;
            has_reused = true;
            throw;
        }
    }
    std::basic_string<C> reused;
    bool has_reused = false;
};

struct Outcome
{
    enum What
    {
        normal,
        ours,
        sink,
        wrong
    } what = normal;
    std::string name;
    u64 id = 0;
    int kind = -1;
};

template <typename F>
Outcome guarded(F&& fn)
{
    Outcome o;
    auto got = [&](int kind, u64 id)
    {
        o.what = Outcome::ours;
        o.kind = kind;
        o.id = id;
    };
    try
    {
        fn();
    }
    catch(const SinkThrow& e)
    {
        o.what = Outcome::sink;
        o.id = e.id;
    }
    catch(const UserThrow& e)
    {
        got(k_plain, e.id);
    }
    catch(int e)
    {
        got(k_int, (u64)e);
    }
    catch(const std::exception& e)
    {
        if(auto* x = dynamic_cast<const UserRuntime*>(&e)) got(k_runtime, x->id);
        else if(auto* x = dynamic_cast<const UserFormat*>(&e)) got(k_format, x->id);
        else if(auto* x = dynamic_cast<const UserRange*>(&e)) got(k_range, x->id);
        else if(auto* x = dynamic_cast<const UserAlloc*>(&e)) got(k_alloc, x->id);
        else if(auto* x = dynamic_cast<const UserIos*>(&e)) got(k_ios, x->id);
        else
        {
            Harness h;
            o.what = Outcome::wrong;
            o.name = e.what();
        }
    }
    catch(...)
    {
        Harness h;
        o.what = Outcome::wrong;
        o.name = "unknown exception";
    }
    return o;
}

template <typename C>
bool prefix(const std::basic_string<C>& a, const std::basic_string<C>& b)
{
    return a.size() <= b.size() && b.compare(0, a.size(), a) == 0;
}

template <typename C>
void run_as()
{
    long ledger0 = Ledger::live;
    {
        Pack<C> p;
        Program g = program(p, 4);
        std::basic_string<C> fmt = W<C>(g.fmt), text = W<C>(g.text);
        ev("fmt \"%s\"", esc(g.fmt, 300).c_str());
        mix_bytes(g.text.data(), g.text.size());
        const std::string print = p.print();

        for(u64 calls = range(1, 3), q = 0; q < calls; ++q)
        {
            op_begin();
            int how = (int)draw(h_count);
            long n = chance(1, 3) ? (long)g.text.size() + 1 : (long)draw(g.text.size() + 2);
            std::size_t limit = how == h_to_n ? std::min<std::size_t>(n, text.size()) : text.size();
            std::basic_string<C> want = text.substr(0, limit);
            const char* hn = how_name[how];
            auto describe = [&] { return std::string(hn) + (how == h_to_n ? "(" + std::to_string(n) + ")" : "") + " of \"" + g.fmt + "\""; };
            auto judge = [&](const Call<C>& c, const Sink<C>& s, const char* when)
            {
                if(how != h_size && s.text != want)
                    fail("wrong-result", "%s %s gave \"%s\", expected \"%s\"", when, describe().c_str(), N<C>(s.text).c_str(), N<C>(want).c_str());
                long ws = how == h_size ? (long)text.size() : how == h_to_n ? (long)limit : -1;
                if(c.size != ws) fail("wrong-result", "%s %s reported size %ld, expected %ld", when, describe().c_str(), c.size, ws);
            };
            Call<C> call{how, n, fmt, p};
            // fault-free; counts the user points of the call
            {
                Sink<C> s;
                call(s);
                judge(call, s, "first");
            }
            u64 blocks0 = live_blocks();
            Points::reset();
            {
                Sink<C> s;
                {
                    Sut t;
                    call(s);
                }
                judge(call, s, "second");
            }
            u64 hits = Points::hits;
            if(leaked_since(blocks0)) fail("leak", "%s left %llu blocks allocated", describe().c_str(), (unsigned long long)(live_blocks() - blocks0));

            // user points passed by the time the first j pieces are done (bounded calls may stop early)
            std::vector<u64> upto;
            std::vector<std::size_t> start{0};
            if(how != h_to_n)
            {
                std::string pre;
                for(std::size_t j = 0; j < g.pieces.size(); ++j)
                {
                    Call<C> part{how, n, W<C>(pre), p};
                    Points::reset();
                    Sink<C> s;
                    part(s);
                    upto.push_back(Points::hits);
                    pre += g.pieces[j].fmt;
                    start.push_back(start.back() + W<C>(g.pieces[j].text).size());
                }
            }
            for(u64 tries = range(1, 3), t = 0; t < tries; ++t)
            {
                Sink<C> s;
                if(how != h_to_n && chance(1, 6))
                { // an error found by the library itself in front of piece j
                    static const char* const bad[] = {"{99}", "{nosuch}", "{3:x}", "{12.zzz}", "{3:u?}", "{$ {nosuch} ? 'a'}"};
                    std::size_t j = draw(g.pieces.size() + 1);
                    const char* b = pick(bad);
                    std::string f2, before;
                    for(std::size_t i = 0; i < j; ++i) f2 += g.pieces[i].fmt, before += g.pieces[i].text;
                    f2 += b;
                    for(std::size_t i = j; i < g.pieces.size(); ++i) f2 += g.pieces[i].fmt;
                    Call<C> c2{how, n, W<C>(f2), p};
                    Points::reset();
                    std::string what;
                    {
                        Sut scope;
                        try
                        {
                            c2(s);
                        }
                        catch(const std::exception& e)
                        {
                            Harness h;
                            what = std::string("exception: ") + e.what();
                        }
                    }
                    fault("format-error");
                    nontrivial();
                    ev("%s of \"%s\" -> %s", hn, f2.c_str(), what.c_str());
                    if(what.empty()) fail("swallowed", "%s of \"%s\" returned normally", hn, f2.c_str());
                    if(how != h_format && how != h_size && s.text != W<C>(before))
                        fail("wrong-prefix", "%s of \"%s\" wrote \"%s\" before the error, expected \"%s\"", hn, f2.c_str(), N<C>(s.text).c_str(), before.c_str());
                    if(leaked_since(blocks0)) fail("leak", "%s of \"%s\" leaked %llu blocks", hn, f2.c_str(), (unsigned long long)(live_blocks() - blocks0));
                    continue;
                }
                bool by_sink = how != h_format && how != h_size && chance(1, 3);
                if(!by_sink && !hits) continue;
                u64 k = by_sink ? draw(want.size() + 1) : draw(hits);
                int kind = (int)draw(k_count);
                Points::reset();
                if(by_sink)
                {
                    s.at = (long)k;
                    s.id = ++Points::id;
                }
                else Points::arm(k, kind);
                Outcome o;
                call.has_reused = false;
                {
                    Sut scope;
                    o = guarded([&] { call(s); });
                }
                Points::armed = false;
                ev("%s n=%ld %s k=%llu/%llu -> %d", hn, n, by_sink ? "sink" : "user", (unsigned long long)k, (unsigned long long)hits, (int)o.what);
                bool should = by_sink ? k < want.size() : true;
                if(should) nontrivial();
                mark_state((((u64)how * 2 + by_sink) * 8 + (by_sink ? 0 : (u64)kind)) * 16 + std::min<u64>(k, 15));
                if(o.what == Outcome::wrong)
                    fail("wrong-exception", "%s: the exception of user code (kind %d) came out as \"%s\"", describe().c_str(), kind, o.name.c_str());
                if(should && o.what == Outcome::normal)
                    fail("swallowed", "%s: %s but the call returned normally", describe().c_str(), by_sink ? "the output iterator threw" : "user code threw");
                if(!should && o.what != Outcome::normal) fail("spurious", "%s threw although nothing failed", describe().c_str());
                if(should && (by_sink ? o.what != Outcome::sink || o.id != s.id : o.what != Outcome::ours || o.id != Points::id || o.kind != kind))
                    fail("wrong-exception", "%s: a different exception came out", describe().c_str());
                if(should)
                {
                    if(by_sink)
                    {
                        if(s.text != want.substr(0, k))
                            fail("wrong-prefix", "%s: the iterator threw at character %llu after receiving \"%s\", expected \"%s\"", describe().c_str(), (unsigned long long)k, N<C>(s.text).c_str(), N<C>(want.substr(0, k)).c_str());
                    }
                    else if(how != h_format && how != h_size)
                    {
                        if(!prefix(s.text, want))
                            fail("wrong-prefix", "%s: wrote \"%s\" before the exception, which is not a prefix of \"%s\"", describe().c_str(), N<C>(s.text).c_str(), N<C>(want).c_str());
                        if(how != h_to_n)
                        {
                            std::size_t j = 0;
                            while(j + 1 < upto.size() && upto[j + 1] <= k) ++j;
                            if(k >= upto[0] && (s.text.size() < start[j] || s.text.size() > start[j + 1]))
                                fail("wrong-prefix", "%s: the exception came from piece %zu (characters %zu-%zu) but \"%s\" had been written", describe().c_str(), j, start[j], start[j + 1], N<C>(s.text).c_str());
                            auto own = W<C>(Points::partial);
                            // nested fields are written through the same iterator
                            if(!own.empty() && (s.text.size() < own.size() || s.text.substr(s.text.size() - own.size()) != own))
                                fail("wrong-prefix", "%s: the formatter had written \"%s\" when it threw, but the text so far is \"%s\"", describe().c_str(), Points::partial.c_str(), N<C>(s.text).c_str());
                        }
                    }
                    if(call.has_reused && call.reused != text)
                        fail("wrong-result", "%s: the argument store gave \"%s\" when used again after the exception, expected \"%s\"", describe().c_str(), N<C>(call.reused).c_str(), N<C>(text).c_str());
                }
                if(leaked_since(blocks0)) fail("leak", "%s leaked %llu blocks when user code threw", describe().c_str(), (unsigned long long)(live_blocks() - blocks0));
                if(p.print() != print) fail("argument-changed", "%s changed its arguments: %s is now %s", describe().c_str(), print.c_str(), p.print().c_str());
                {
                    Sink<C> s2;
                    {
                        Sut scope;
                        call(s2);
                    }
                    judge(call, s2, "repeated");
                }
            }
        }
    }
    if(Ledger::live != ledger0) fail("object-count", "%ld user objects too many or too few", Ledger::live - ledger0);
}

} // namespace

#if SIM_PART < 2
void run_wide();
#endif
#if SIM_PART == 1
void run_wide() { run_as<wchar_t>(); }
#elif SIM_PART == 0
namespace
{
void run()
{
    Points::reset();
    Points::id = 0;
    Ledger::live = 0;
    if(chance(1, 6)) xrun_any(xw::XMode::user);
    else if(chance(1, 3)) run_wide();
    else run_as<char>();
}
} // namespace

const Property sim::property = {
    "C05", run, 250000, 2500000, 60000000,
    "random packs of 23 arguments and format strings of 1-4 pieces, one run in six in char8_t, char16_t or char32_t, whose text the harness computes itself; seven entry points; user code (formatter parse and format, ADL format, operator<<, accessor, copy, conversion, lazy range) throws one of seven exceptions at the k-th point reached, or the output iterator throws at character k; non-trivial: something threw",
    "all of src/ and include/, libstdc++ streams and strings",
    "user types and output iterators"};
#endif
