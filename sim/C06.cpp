// C06: every output path produces the same text, and bounded ones stop in time.
// SIM: parts=12 xchar
#define X_FIRST 9
#include "xwork.hpp"
#include <papilio/print.hpp>
#include <cstdio>
#include <locale>
#include <sstream>
#include <typeinfo>

using namespace sim;
using namespace fw;

namespace c06
{
// An output iterator that cannot take more than `room` characters.
template <typename C>
struct Sink
{
    std::basic_string<C> text;
    std::size_t room = (std::size_t)-1;
};
template <typename C>
struct It
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    Sink<C>* s;
    std::size_t pos = 0; // every copy knows where it is
    bool ready = true;   // write, step, write, step ...
    It& operator*() { return *this; }
    It& operator++()
    {
        ready = true;
        return *this;
    }
    It operator++(int)
    {
        It t = *this;
        ready = true;
        return t;
    }
    It& operator=(C c)
    {
        if(s->text.size() >= s->room)
        {
            fault("sink-full");
            flag("beyond-bound", "a character was written beyond the bound of the output");
        }
        if(pos != s->text.size()) flag("stale-iterator", "a character was written through an outdated copy of the output iterator");
        s->text += c;
        ++pos;
        ready = false;
        return *this;
    }
};

enum How : int
{
    h_format,
    h_format_loc,
    h_vformat,
    h_vformat_loc,
    h_dynamic,
    h_back,
    h_back_loc,
    h_ptr,
    h_sink,
    h_size,
    h_size_loc,
    h_n_ptr,
    h_n_sink,
    h_n_loc,
    h_n_back,
    h_wide_end, // paths below exist for char only
    h_ostream = h_wide_end,
    h_ostream_ln,
    h_file,
    h_file_ln,
    h_count
};
static const char* how_name[] = {"format", "format(locale)", "vformat", "vformat(locale)", "vformat(dynamic store)", "format_to(back_inserter)", "format_to(locale)", "format_to(pointer)", "format_to(iterator)",
                          "formatted_size", "formatted_size(locale)", "format_to_n(pointer)", "format_to_n(iterator)", "format_to_n(locale)", "format_to_n(back_inserter)", "print(ostream)", "println(ostream)", "print(FILE)", "println(FILE)"};

template <typename C>
struct Res
{
    std::basic_string<C> text;
    long size = -1;  // what the call reported
    long end = -1;   // where the returned iterator points
    std::string error;
};

// The paths are compiled in groups, each in a translation unit of its own.
constexpr int group_of(int how)
{
    return how <= h_back_loc ? 0 : how <= h_sink ? 1 : how <= h_size_loc || how >= h_wide_end ? 2 : 3;
}
template <typename C, int G>
Res<C> call_group(int how, const std::basic_string<C>& fmt, Pack<C>& p, long n, std::size_t cap);


// memory stream for print(FILE)
struct Mem
{
    char* p = nullptr;
    std::size_t n = 0;
    FILE* f = open_memstream(&p, &n);
    std::string take()
    {
        if(f) std::fclose(f);
        f = nullptr;
        return std::string(p, n);
    }
    ~Mem()
    {
        if(f) std::fclose(f);
        std::free(p);
    }
};

template <typename C, int G>
Res<C> call_group(int how, const std::basic_string<C>& fmt, Pack<C>& p, long n, std::size_t cap)
{
    using V = std::basic_string_view<C>;
    using S = std::basic_string<C>;
    using FCtx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
    Res<C> r;
    V f = fmt;
    std::locale cl = std::locale::classic();
    auto fwd = [&](auto&& fn) -> decltype(auto) { return p.apply(fn); };
#define A std::forward<decltype(a)>(a)...
    Sink<C> sink;
    bool use_sink = how == h_sink || how == h_n_sink || how == h_n_loc;
    std::unique_ptr<C[]> buf; // exact size: the sanitizer sees any overrun
    long extent = how == h_ptr ? (long)cap : n;
    if(how == h_ptr || how == h_n_ptr) buf.reset(new C[extent]);
    if(how == h_sink) sink.room = cap;
    if(how == h_n_sink || how == h_n_loc) sink.room = (std::size_t)n;
    try
    {
        if constexpr(G == group_of(h_format))
            if(how == h_format) { r.text = fwd([&](auto&&... a) { return papilio::format(f, A); }); }
        if constexpr(G == group_of(h_format_loc))
            if(how == h_format_loc) { r.text = fwd([&](auto&&... a) { return papilio::format(cl, f, A); }); }
        if constexpr(G == group_of(h_vformat))
            if(how == h_vformat) { r.text = fwd([&](auto&&... a) { return papilio::vformat(f, papilio::make_format_args<FCtx>(A)); }); }
        if constexpr(G == group_of(h_vformat_loc))
            if(how == h_vformat_loc) { r.text = fwd([&](auto&&... a) { return papilio::vformat(cl, f, papilio::make_format_args<FCtx>(A)); }); }
        if constexpr(G == group_of(h_dynamic))
            if(how == h_dynamic)
        {
            papilio::basic_dynamic_format_args<FCtx, C> store;
            fwd([&](auto&&... a) { store.append(A); });
            r.text = papilio::vformat(f, store);
        }
        if constexpr(G == group_of(h_back))
            if(how == h_back)
        {
            r.text = W<C>("<>");
            fwd([&](auto&&... a) { *papilio::format_to(std::back_inserter(r.text), f, A) = C('$'); });
            if(r.text.size() < 3 || r.text.substr(0, 2) != W<C>("<>") || r.text.back() != C('$')) fail("wrong-text", "format_to(back_inserter) did not append");
            r.text = r.text.substr(2, r.text.size() - 3);
        }
        if constexpr(G == group_of(h_back_loc))
            if(how == h_back_loc) { fwd([&](auto&&... a) { papilio::format_to(std::back_inserter(r.text), cl, f, A); }); }
        if constexpr(G == group_of(h_ptr))
            if(how == h_ptr)
        {
            C* e = fwd([&](auto&&... a) { return papilio::format_to(buf.get(), f, A); });
            r.end = e - buf.get();
            r.text.assign(buf.get(), (std::size_t)std::min<long>(r.end, extent));
        }
        if constexpr(G == group_of(h_sink))
            if(how == h_sink)
        {
            auto e = fwd([&](auto&&... a) { return papilio::format_to(It<C>{&sink}, f, A); });
            r.end = (long)e.pos;
        }
        if constexpr(G == group_of(h_size))
            if(how == h_size) { r.size = (long)fwd([&](auto&&... a) { return papilio::formatted_size(f, A); }); }
        if constexpr(G == group_of(h_size_loc))
            if(how == h_size_loc) { r.size = (long)fwd([&](auto&&... a) { return papilio::formatted_size(cl, f, A); }); }
        if constexpr(G == group_of(h_n_ptr))
            if(how == h_n_ptr)
        {
            auto e = fwd([&](auto&&... a) { return papilio::format_to_n(buf.get(), n, f, A); });
            r.end = e.out - buf.get();
            r.size = e.size;
            r.text.assign(buf.get(), (std::size_t)std::min<long>(r.end, extent));
        }
        if constexpr(G == group_of(h_n_sink))
            if(how == h_n_sink)
        {
            auto e = fwd([&](auto&&... a) { return papilio::format_to_n(It<C>{&sink}, n, f, A); });
            r.end = (long)e.out.pos;
            r.size = e.size;
        }
        if constexpr(G == group_of(h_n_loc))
            if(how == h_n_loc)
        {
            auto e = fwd([&](auto&&... a) { return papilio::format_to_n(It<C>{&sink}, n, cl, f, A); });
            r.end = (long)e.out.pos;
            r.size = e.size;
        }
        if constexpr(G == group_of(h_n_back))
            if(how == h_n_back) { r.size = fwd([&](auto&&... a) { return papilio::format_to_n(std::back_inserter(r.text), n, f, A).size; }); }
        if constexpr(G == 2 && std::is_same_v<C, char>)
            if(how >= h_wide_end)
            {
                if(how == h_ostream || how == h_ostream_ln)
                {
                    std::ostringstream os;
                    os.imbue(cl);
                    try
                    {
                        if(how == h_ostream) fwd([&](auto&&... a) { papilio::print(os, f, A); });
                        else fwd([&](auto&&... a) { papilio::println(os, f, A); });
                    }
                    catch(...)
                    {
                        r.text = os.str();
                        throw;
                    }
                    r.text = os.str();
                }
                else
                {
                    Mem m;
                    if(how == h_file) fwd([&](auto&&... a) { papilio::print(m.f, f, A); });
                    else fwd([&](auto&&... a) { papilio::println(m.f, f, A); });
                    r.text = m.take();
                }
                if(how == h_ostream_ln || how == h_file_ln)
                {
                    if(r.text.empty() || r.text.back() != '\n') fail("wrong-text", "%s did not end with a newline", how_name[how]);
                    r.text.pop_back();
                }
            }
    }
    catch(const Violation&)
    {
        throw;
    }
    catch(const UserThrow&)
    {
        r.error = "UserThrow";
    }
    catch(const std::exception& e)
    {
        r.error = std::string(typeid(e).name()) + ": " + e.what();
    }
#undef A
    if(use_sink) r.text = sink.text;
    return r;
}


#if SIM_PART >= 9
// external character types: xwork.hpp
#elif SIM_PART != 0
constexpr int part_group = (SIM_PART - 1) % 4;
using part_char = std::conditional_t<(SIM_PART <= 4), char, wchar_t>;
template Res<part_char> call_group<part_char, part_group>(int, const std::basic_string<part_char>&, Pack<part_char>&, long, std::size_t);
#else
extern template Res<char> call_group<char, 0>(int, const std::string&, Pack<char>&, long, std::size_t);
extern template Res<char> call_group<char, 1>(int, const std::string&, Pack<char>&, long, std::size_t);
extern template Res<char> call_group<char, 2>(int, const std::string&, Pack<char>&, long, std::size_t);
extern template Res<char> call_group<char, 3>(int, const std::string&, Pack<char>&, long, std::size_t);
extern template Res<wchar_t> call_group<wchar_t, 0>(int, const std::wstring&, Pack<wchar_t>&, long, std::size_t);
extern template Res<wchar_t> call_group<wchar_t, 1>(int, const std::wstring&, Pack<wchar_t>&, long, std::size_t);
extern template Res<wchar_t> call_group<wchar_t, 2>(int, const std::wstring&, Pack<wchar_t>&, long, std::size_t);
extern template Res<wchar_t> call_group<wchar_t, 3>(int, const std::wstring&, Pack<wchar_t>&, long, std::size_t);

template <typename C>
Res<C> call(int how, const std::basic_string<C>& fmt, Pack<C>& p, long n, std::size_t cap)
{
    switch(group_of(how))
    {
    case 0: return call_group<C, 0>(how, fmt, p, n, cap);
    case 1: return call_group<C, 1>(how, fmt, p, n, cap);
    case 2: return call_group<C, 2>(how, fmt, p, n, cap);
    default: return call_group<C, 3>(how, fmt, p, n, cap);
    }
}

template <typename C>
void run_as()
{
    Pack<C> p;
    Program g = program(p, 6);
    // an error somewhere: every path must report the same
    std::string broken;
    std::size_t at = 0;
    if(chance(1, 5))
    {
        static const char* const bad[] = {"{99}", "{nosuch}", "{3:x}", "{12.zzz}", "{3:u?}", "{$ {nosuch} ? 'a'}", "{$ {0} 'a'}", "{0", "{$ 'a' ? ", "{12[7]}", "{8['zz']}"};
        broken = pick(bad);
        at = draw(g.pieces.size() + 1);
        if(broken.back() != '}') at = g.pieces.size();
        std::string f, t, tail;
        for(std::size_t j = 0; j < g.pieces.size(); ++j)
        {
            (j < at ? f : tail) += g.pieces[j].fmt;
            if(j < at) t += g.pieces[j].text;
        }
        g.fmt = f + broken + tail;
        g.text = t;
        fault("format-error");
    }
    std::basic_string<C> fmt = W<C>(g.fmt), text = W<C>(g.text);
    ev("fmt \"%s\" (%zu characters)", esc(g.fmt, 300).c_str(), text.size());
    mix_bytes(g.text.data(), g.text.size());
    const std::string print = p.print();
    const int paths = std::is_same_v<C, char> ? h_count : h_wide_end;
    std::string error;
    bool first = true;
    for(u64 calls = range(4, 12), q = 0; q < calls; ++q)
    {
        op_begin();
        int how = (int)draw(paths);
        bool bounded = how >= h_n_ptr && how <= h_n_back;
        long n = (long)range(0, text.size() + 3);
        std::size_t reach = bounded ? std::min<std::size_t>(n, text.size()) : text.size();
        Res<C> r = call(how, fmt, p, n, text.size());
        auto describe = [&] { return std::string(how_name[how]) + (bounded ? " n=" + std::to_string(n) : "") + " of \"" + g.fmt + "\""; };
        ev("%s n=%ld -> \"%s\" size=%ld end=%ld %s", how_name[how], n, esc(N<C>(r.text), 80).c_str(), r.size, r.end, r.error.c_str());
        mark_state((u64)how * 64 + std::min<u64>(bounded ? n : 0, 31) * 2 + !broken.empty());
        if(bounded && n < (long)text.size())
        {
            nontrivial();
            probe("bound-inside-text");
        }
        if(!broken.empty())
        {
            nontrivial();
            if(r.error.empty() && (!bounded || n > (long)text.size())) fail("no-error", "%s returned normally", describe().c_str());
            if(!r.error.empty())
            {
                if(!first && r.error != error) fail("different-error", "%s failed with %s, another path with %s", describe().c_str(), r.error.c_str(), error.c_str());
                error = r.error;
                first = false;
            }
            bool shows = how == h_back_loc || how == h_sink || how == h_ostream || (bounded && r.error.empty()) || how == h_n_sink || how == h_n_loc || how == h_n_back;
            if(shows && r.text != text.substr(0, reach))
                fail("wrong-text", "%s produced \"%s\" before the error, expected \"%s\"", describe().c_str(), N<C>(r.text).c_str(), N<C>(text.substr(0, reach)).c_str());
            continue;
        }
        if(!r.error.empty()) fail("unexpected-error", "%s failed with %s", describe().c_str(), r.error.c_str());
        bool sized = how == h_size || how == h_size_loc;
        if(!sized && r.text != text.substr(0, reach))
            fail("wrong-text", "%s gave \"%s\", expected \"%s\"", describe().c_str(), N<C>(r.text).c_str(), N<C>(text.substr(0, reach)).c_str());
        if((sized || bounded) && r.size != (long)reach)
            fail("wrong-count", "%s reported %ld characters, expected %zu", describe().c_str(), r.size, reach);
        if(r.end >= 0 && r.end != (long)reach)
            fail("wrong-end", "%s returned an iterator at %ld, expected %zu", describe().c_str(), r.end, reach);
        if(p.print() != print) fail("argument-changed", "%s changed its arguments", describe().c_str());
    }
}

void run()
{
    Points::reset();
    Ledger::live = 0;
    if(chance(1, 6)) xrun_any(xw::XMode::paths);
    else if(chance(1, 3)) run_as<wchar_t>();
    else run_as<char>();
    if(Ledger::live) fail("object-count", "%ld user objects too many or too few", Ledger::live);
}
#endif
} // namespace c06

#if SIM_PART == 0
const Property sim::property = {
    "C06", c06::run, 250000, 2500000, 60000000,
    "random packs of 23 arguments and format strings of 1-6 pieces (ASCII and beyond; char, wchar_t, char8_t, char16_t and char32_t; automatic and explicit numbers) whose text the harness computes itself, one in five with an error in a random place; 19 output paths in random order, bounds from 0 to beyond the end, sinks without room for one more character; non-trivial: the bound lies inside the text or there is an error",
    "all of src/ and include/, libstdc++ streams, glibc memory streams",
    "output iterators and user types"};
#endif
