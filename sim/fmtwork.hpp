// Formatting workload shared by the checks of the formatting core: user types with audited life
// cycles and throw points, a pack of arguments of every kind, and format strings built of pieces
// whose text is known to the harness without calling the library.
#pragma once
#include "sim.hpp"
#ifdef SIM_SCHED
#    include "sched.hpp"
#endif
#include <papilio/papilio.hpp>
#include <papilio/color.hpp>
#include <papilio/accessor/chrono.hpp>
#include <papilio/accessor/misc.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <set>
#include <span>
#include <cstdlib>
#include <map>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <variant>
#include <vector>

namespace fw
{
using namespace sim;

// ---- exceptions user code may throw ---------------------------------------
struct UserThrow
{
    u64 id;
};
struct UserRuntime : std::runtime_error
{
    u64 id;
    explicit UserRuntime(u64 i) : std::runtime_error("user"), id(i) {}
};
struct UserFormat : papilio::format_error
{
    u64 id;
    explicit UserFormat(u64 i) : papilio::format_error("user"), id(i) {}
};
struct UserRange : std::out_of_range
{
    u64 id;
    explicit UserRange(u64 i) : std::out_of_range("user"), id(i) {}
};
struct UserAlloc : std::bad_alloc
{
    u64 id;
    explicit UserAlloc(u64 i) : id(i) {}
};
struct UserIos : std::ios_base::failure
{
    u64 id;
    explicit UserIos(u64 i) : std::ios_base::failure("user"), id(i) {}
};
enum Kind : int
{
    k_plain,
    k_runtime,
    k_format,
    k_range,
    k_alloc,
    k_ios,
    k_int,
    k_count
};

// ---- throw points ------------------------------------------------------------
struct Points
{
    static inline bool armed = false;
    static inline u64 left = 0;
    static inline u64 hits = 0;
    static inline u64 fired = 0;
    static inline int kind = 0;
    static inline u64 id = 0;
    static inline std::string partial; // what the throwing formatter had written itself
    static inline void (*visit)() = nullptr; // called at every point user code runs
#ifdef SIM_SCHED
    static inline int only = -1; // the simulated thread whose code throws
#endif

    static void reset()
    {
        armed = false;
        hits = 0;
        fired = 0;
        visit = nullptr;
        partial.clear();
    }
    static void arm(u64 k, int kd)
    {
        armed = true;
        left = k;
        kind = kd;
        fired = 0;
        ++id;
        partial.clear();
    }
    [[noreturn]] static void raise()
    {
        switch(kind)
        {
        case k_runtime: throw UserRuntime(id);
        case k_format: throw UserFormat(id);
        case k_range: throw UserRange(id);
        case k_alloc: throw UserAlloc(id);
        case k_ios: throw UserIos(id);
        case k_int: throw static_cast<int>(id);
        default: throw UserThrow{id};
        }
    }
    static void hit(const char* where, const std::string* written = nullptr)
    {
        {
            Harness h;
#ifdef SIM_SCHED
            if(armed && only != sched::self()) return;
#endif
            ++hits;
            if(visit) visit();
            if(!armed) return;
            if(left--) return;
            if(written) partial = *written;
            armed = false;
            ++fired;
            fault(where);
            ev("  ! user code throws kind %d at %s", kind, where);
        }
        raise();
    }
};

struct Ledger
{
    static inline long live = 0;
    static void add(long n)
    {
        Harness h;
        live += n;
    }
};

// ---- user types ---------------------------------------------------------------
// Formattable, not small-object-optimised (its copy may throw), owns memory.
struct Fmt
{
    static constexpr unsigned ALIVE = 0xF0F0A11Fu;
    std::string text;
    unsigned magic = ALIVE;
    Fmt(std::string t) : text(std::move(t)) { Ledger::add(1); }
    Fmt(const Fmt& o) : text((o.check(), Points::hit("throw-in-copy"), o.text)) { Ledger::add(1); }
    Fmt(Fmt&& o) noexcept(false) : text((o.check(), Points::hit("throw-in-move"), std::move(o.text))) { Ledger::add(1); }
    Fmt& operator=(const Fmt&) = default;
    ~Fmt()
    {
        check();
        magic = 0xDEADF0F0u;
        Ledger::add(-1);
    }
    void check() const
    {
        if(magic != ALIVE) die("object-lifetime", "a user object was used before its construction or after its destruction");
    }
};
// small, nothrow copyable: lives inside the argument handle
struct SFmt
{
    static constexpr unsigned ALIVE = 0x50F0A11Fu;
    int v;
    unsigned magic = ALIVE;
    explicit SFmt(int x) : v(x) { Ledger::add(1); }
    SFmt(const SFmt& o) noexcept : v(o.v)
    {
        o.check();
        Ledger::add(1);
    }
    SFmt& operator=(const SFmt& o) noexcept
    {
        check();
        o.check();
        v = o.v;
        return *this;
    }
    ~SFmt()
    {
        check();
        magic = 0xDEAD50F0u;
        Ledger::add(-1);
    }
    void check() const
    {
        if(magic != ALIVE) die("object-lifetime", "a small user object was used before its construction or after its destruction");
    }
};
struct Adl
{
    int v;
    template <typename Context>
    friend auto format(const Adl& a, Context& ctx) -> typename Context::iterator
    {
        using context_t = papilio::format_context_traits<Context>;
        using C = typename Context::char_type;
        Points::hit("throw-in-adl-format");
        context_t::append(ctx, C('('));
        Points::hit("throw-in-adl-format");
        context_t::append(ctx, C('0' + a.v % 10));
        context_t::append(ctx, C(')'));
        Points::hit("throw-in-adl-format");
        return context_t::out(ctx);
    }
};
struct Str // operator<< only
{
    std::string text;
    template <typename C>
    friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const Str& s)
    {
        Points::hit("throw-in-operator<<");
        for(char c : s.text)
        {
            os.put(C(c));
            Points::hit("throw-in-operator<<");
        }
        return os;
    }
};
template <typename C>
struct Rec // everything through its accessor
{
    std::basic_string<C> name;
    int num;
    Fmt fmt;
    std::vector<int> list;
};
struct Lazy // input range that computes its elements
{
    int n;
    struct iterator
    {
        using value_type = int;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        int i = 0;
        int operator*() const
        {
            Points::hit("throw-in-range");
            return i * 3;
        }
        iterator& operator++()
        {
            Points::hit("throw-in-range");
            ++i;
            return *this;
        }
        void operator++(int) { ++*this; }
        bool operator==(const iterator& o) const { return i == o.i; }
    };
    iterator begin() const
    {
        Points::hit("throw-in-range");
        return {0};
    }
    iterator end() const { return {n}; }
};
enum class Hue
{
    red,
    green,
    blue
};
template <typename C>
struct Nest // its formatter formats other values into the same context
{
    int i;
    std::basic_string<C> s;
};
// A small object with an accessor: what the accessor returns may have to be allocated.
template <typename C>
struct SRec
{
    static constexpr unsigned ALIVE = 0x5EC0A11Fu;
    int v;
    unsigned magic = ALIVE;
    explicit SRec(int x) : v(x) { Ledger::add(1); }
    SRec(const SRec& o) noexcept : v(o.v)
    {
        o.check();
        Ledger::add(1);
    }
    ~SRec()
    {
        check();
        magic = 0xDEAD5EC0u;
        Ledger::add(-1);
    }
    void check() const
    {
        if(magic != ALIVE) die("object-lifetime", "a small user object was used before its construction or after its destruction");
    }
    static std::string text(long k) { return "small record " + std::to_string(k) + " with a text that needs memory"; }
};
// The remaining kinds of values the library formats and gives access to, reached by attribute.
template <typename C>
struct Zoo
{
    using S = std::basic_string<C>;
    std::tm tm{};
    std::filesystem::path path;
    std::pair<int, S> pi;
    std::pair<S, Fmt> pf{S(), Fmt("")};
    std::vector<int> list; // at least one
    std::vector<std::optional<papilio::utf::codepoint>> opts;
    std::vector<Fmt> fmts;
    S sep;
    const void* ptr = nullptr;
    papilio::small_vector<int, 2> sv;
    papilio::fixed_vector<int, 4> fv;
    papilio::fixed_flat_map<int, S, 4> ffm;
    std::map<int, Fmt, std::greater<int>> mg;
    std::vector<bool> vb;
    std::vector<C> chars;
    std::set<int> set;
    std::variant<std::monostate, int, Fmt> var;
    std::type_index type = typeid(int);
    int num;
    std::string path_text; // as the harness knows it
};
template <typename C>
struct Conv // formatted through its conversion to a string view
{
    std::basic_string<C> text;
    operator std::basic_string_view<C>() const
    {
        Points::hit("throw-in-conversion");
        return text;
    }
};
} // namespace fw

namespace papilio
{
template <typename CharT>
class formatter<fw::Fmt, CharT>
{
    bool m_up = false;

public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        fw::Points::hit("throw-in-parse");
        auto it = ctx.begin();
        if(it != ctx.end() && *it == U'u')
        {
            fw::Points::hit("throw-in-parse");
            m_up = true;
            ++it;
        }
        if(it != ctx.end() && *it != U'}') throw papilio::format_error("bad spec for Fmt");
        return it;
    }
    template <typename Context>
    auto format(const fw::Fmt& v, Context& ctx) const -> typename Context::iterator
    {
        using context_t = papilio::format_context_traits<Context>;
        v.check();
        std::string mine;
        auto put = [&](char c)
        {
            context_t::append(ctx, CharT(c));
            sim::Harness h;
            mine += c;
        };
        fw::Points::hit("throw-in-format");
        put('<');
        for(char c : v.text)
        {
            put(m_up && c >= 'a' && c <= 'z' ? char(c - 32) : c);
            fw::Points::hit("throw-in-format", &mine);
        }
        context_t::append(ctx, CharT('>'));
        return context_t::out(ctx);
    }
};
template <typename CharT>
class formatter<fw::SFmt, CharT>
{
public:
    template <typename ParseContext, typename Context>
    auto format(const fw::SFmt& v, ParseContext& pctx, Context& ctx) const -> typename Context::iterator
    {
        using context_t = papilio::format_context_traits<Context>;
        v.check();
        fw::Points::hit("throw-in-format");
        auto it = pctx.begin();
        bool hash = false;
        if(it != pctx.end() && *it == U'#')
        {
            hash = true;
            ++it;
        }
        pctx.advance_to(it);
        context_t::append(ctx, CharT('['));
        if(hash) context_t::append(ctx, CharT('#'));
        fw::Points::hit("throw-in-format");
        context_t::append(ctx, CharT('0' + v.v % 10));
        context_t::append(ctx, CharT(']'));
        return context_t::out(ctx);
    }
};
template <typename CharT>
class formatter<fw::Nest<CharT>, CharT>
{
public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        fw::Points::hit("throw-in-parse");
        return ctx.begin();
    }
    template <typename Context>
    auto format(const fw::Nest<CharT>& v, Context& ctx) const -> typename Context::iterator
    {
        using context_t = papilio::format_context_traits<Context>;
        static const CharT f[] = {'{', '}', '-', '{', 'x', ':', '>', '3', '}', '{', '{', 0}, x[] = {'x', 0}, e[] = {'a', '\t', '"', 0};
        auto it = context_t::out(ctx);
        *it = CharT('{');
        ++it;
        context_t::advance_to(ctx, it);
        fw::Points::hit("throw-in-format");
        context_t::format_to(ctx, f, v.i, papilio::arg(x, v.s));
        context_t::append(ctx, CharT('='), 3);
        fw::Points::hit("throw-in-format");
        context_t::append(ctx, utf::codepoint(U'\u00E9'), 2);
        context_t::append_escaped(ctx, e);
        // the arguments of the call are visible to formatters
        int w = -1;
        static const CharT wn[] = {'w', '_', '1', 0};
        context_t::get_args(ctx).get(std::basic_string_view<CharT>(wn)).visit([&](const auto& x)
        {
            if constexpr(std::is_same_v<std::decay_t<decltype(x)>, int>) w = x;
        });
        context_t::append(ctx, CharT(w < 0 ? '?' : '0' + w % 10));
        return context_t::out(ctx);
    }
};
template <typename C, typename Context>
struct accessor<fw::SRec<C>, Context>
{
    using format_arg_type = basic_format_arg<Context>;
    static std::basic_string<C> text(long k)
    {
        std::string t = fw::SRec<C>::text(k);
        return std::basic_string<C>(t.begin(), t.end());
    }
    static format_arg_type attribute(const fw::SRec<C>& r, const basic_attribute_name<C>& attr)
    {
        r.check();
        fw::Points::hit("throw-in-accessor");
        std::basic_string_view<C> a = attr;
        if(a.size() == 1 && a[0] == C('t')) return format_arg_type(independent, text(r.v));
        if(a.size() == 1 && a[0] == C('f'))
        {
            std::string t = fw::SRec<C>::text(r.v);
            return format_arg_type(independent, fw::Fmt(t));
        }
        throw_invalid_attribute(attr);
    }
    static format_arg_type index(const fw::SRec<C>& r, ssize_t i)
    {
        r.check();
        fw::Points::hit("throw-in-accessor");
        return format_arg_type(independent, text(r.v + (long)i));
    }
    static format_arg_type index(const fw::SRec<C>& r, index_range i)
    {
        r.check();
        fw::Points::hit("throw-in-accessor");
        return format_arg_type(independent, text(r.v + (long)i.first));
    }
    static format_arg_type index(const fw::SRec<C>& r, std::basic_string_view<C> k)
    {
        r.check();
        fw::Points::hit("throw-in-accessor");
        return format_arg_type(independent, text(r.v + (long)k.size()));
    }
};
template <typename C, typename Context>
struct accessor<fw::Zoo<C>, Context>
{
    using format_arg_type = basic_format_arg<Context>;
    static format_arg_type attribute(const fw::Zoo<C>& z, const basic_attribute_name<C>& attr)
    {
        using V = std::basic_string_view<C>;
        fw::Points::hit("throw-in-accessor");
        V a = attr;
        std::string n(a.begin(), a.end());
        if(n == "tm") return z.tm;
        if(n == "path") return z.path;
        if(n == "pi") return z.pi;
        if(n == "pf") return z.pf;
        if(n == "join") return format_arg_type(independent, papilio::join<C>(z.list, V(z.sep)));
        if(n == "ojoin") return format_arg_type(independent, papilio::join<C>(z.opts, V(z.sep)));
        if(n == "fjoin") return format_arg_type(independent, papilio::join<C>(z.fmts, V(z.sep)));
        if(n == "ptr") return z.ptr;
        if(n == "null") return nullptr;
        if(n == "tid") return format_arg_type(independent, std::thread::id());
        if(n == "type") return z.type;
        if(n == "vec") return z.list;
        if(n == "span") return format_arg_type(independent, std::span<const int>(z.list));
        if(n == "sv") return z.sv;
        if(n == "fv") return z.fv;
        if(n == "ffm") return z.ffm;
        if(n == "mg") return z.mg;
        if(n == "vb") return z.vb;
        if(n == "set") return z.set;
        if(n == "var") return z.var;
        if(n == "chars") return z.chars;
        if constexpr(std::is_same_v<C, char>)
        {
            if(n == "sty") return format_arg_type(independent, papilio::styled(papilio::fg(papilio::color::red) | papilio::style::bold, z.num));
            if(n == "styf") return format_arg_type(independent, papilio::styled(papilio::fg(papilio::color::green), z.pf.second));
        }
        if(n == "sr") return format_arg_type(independent, fw::SRec<C>(z.num));
        throw_invalid_attribute(attr);
    }
};
template <typename C, typename Context>
struct accessor<fw::Rec<C>, Context>
{
    using format_arg_type = basic_format_arg<Context>;
    static format_arg_type attribute(const fw::Rec<C>& r, const basic_attribute_name<C>& attr)
    {
        using V = std::basic_string_view<C>;
        fw::Points::hit("throw-in-accessor");
        V a = attr;
        std::string n(a.begin(), a.end());
        if(n == "name") return r.name;                                  // refers to the member
        if(n == "copy") return format_arg_type(independent, r.name);    // owned text
        if(n == "num") return r.num;
        if(n == "fmt") return r.fmt;                                    // refers to the member
        if(n == "own") return format_arg_type(independent, r.fmt);      // owned object
        if(n == "small") return format_arg_type(independent, fw::SFmt(r.num));
        if(n == "list") return r.list;
        if(n == "lcopy") return format_arg_type(independent, r.list); // owned container
        if(n == "rec") return format_arg_type(independent, r); // owned record
        throw_invalid_attribute(attr);
    }
    static format_arg_type index(const fw::Rec<C>& r, ssize_t i)
    {
        fw::Points::hit("throw-in-accessor");
        if(i < 0) i += (ssize_t)r.list.size();
        return r.list.at((std::size_t)i);
    }
    static format_arg_type index(const fw::Rec<C>& r, std::basic_string_view<C> k)
    {
        fw::Points::hit("throw-in-accessor");
        if(k.size() == 1 && k[0] == C('n')) return r.name;
        return format_arg_type(independent, r.fmt);
    }
};
} // namespace papilio

namespace fw
{
template <typename C>
std::basic_string<C> W(std::string_view s) // from UTF-8
{
    if constexpr(sizeof(C) == 1) return std::basic_string<C>(s.begin(), s.end());
    else
    {
        std::basic_string<C> r;
        for(std::size_t i = 0; i < s.size();)
        {
            unsigned char c = (unsigned char)s[i];
            unsigned n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
            char32_t cp = n == 1 ? c : c & (0x7F >> n);
            for(unsigned k = 1; k < n; ++k) cp = cp << 6 | ((unsigned char)s[i + k] & 0x3F);
            i += n;
            if(sizeof(C) == 2 && cp > 0xFFFF)
            {
                r += (C)(0xD800 + ((cp - 0x10000) >> 10));
                r += (C)(0xDC00 + ((cp - 0x10000) & 0x3FF));
            }
            else r += (C)cp;
        }
        return r;
    }
}
// narrow copy for reports
template <typename C>
std::string N(std::basic_string_view<C> s)
{
    std::string r;
    for(C c : s)
    {
        using U = std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, std::conditional_t<sizeof(C) == 1, char, C>>>;
        U u = (U)c;
        if(u < 0x80 || sizeof(C) == 1) r += (char)u;
        else
        {
            char b[16];
            std::snprintf(b, sizeof b, "\\u{%lx}", (unsigned long)u);
            r += b;
        }
    }
    return r;
}

enum Arg : int // positional arguments
{
    a_i,
    a_w,
    a_d,
    a_f,
    a_sf,
    a_ad,
    a_st,
    a_vs,
    a_mi,
    a_mv,
    a_t,
    a_ta,
    a_r,
    a_ch,
    a_b,
    a_o,
    a_v,
    a_lz,
    a_e,
    a_s,
    a_cv,
    a_ne,
    a_u,
    a_z,
    a_count
};

template <typename C>
struct Pack
{
    using S = std::basic_string<C>;
    int i;
    S s;
    double d;
    Fmt f;
    SFmt sf;
    Adl ad;
    Str st;
    std::vector<S> vs;
    std::map<S, int> mi;
    std::map<S, std::vector<int>> mv;
    std::tuple<int, S> t;
    std::tuple<std::array<int, 3>, int> ta;
    Rec<C> r;
    C ch;
    bool b;
    std::optional<Fmt> o;
    std::variant<int, S> v;
    Lazy lz;
    Hue e;
    int w;
    Conv<C> cv;
    Nest<C> ne;
    S u; // text beyond ASCII, only formatted whole
    std::string utext;
    Zoo<C> z;

    static std::string word(u64 lo, u64 hi)
    {
        std::string r;
        u64 n = range(lo, hi);
        for(u64 k = 0; k < n; ++k) r += (char)('a' + draw(26));
        return r;
    }
    static std::string uni(u64 n)
    {
        static const char* const ch[] = {"a", "\xC3\xA9", "\xD0\xB6", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "\xEE\x80\x80"};
        std::string r;
        for(u64 k = draw(n + 1); k--;) r += pick(ch);
        return r;
    }
    static std::string words() { return chance(1, 3) ? word(24, 60) : word(0, 8); }
    static std::string words0() // a text may contain U+0000
    {
        std::string r = words();
        if(chance(1, 8)) r.insert(r.size() / 2, 1, '\0');
        return r;
    }

    Pack()
        : i((int)range(0, 20) - 10), s(W<C>(words0())), d((double)((long)draw(64) - 32) / 8), f(words()), sf((int)draw(10)), ad{(int)draw(10)},
          st{words0()}, r{W<C>(words()), (int)draw(10), Fmt(words()), {}}, ch(C('a' + draw(26))), b(draw(2)), lz{(int)draw(4)}, e((Hue)draw(3)), w((int)range(1, 12)), cv{W<C>(words())}, ne{(int)draw(100), W<C>(words())}, utext(uni(5))
    {
        u = W<C>(utext);
        for(u64 n = draw(4), k = 0; k < n; ++k) vs.push_back(W<C>(words()));
        mi[W<C>("abc")] = (int)draw(100);
        mi[W<C>("b")] = (int)draw(100);
        mv[W<C>("k")] = {1, (int)draw(100), 3};
        t = {(int)draw(100), W<C>(words())};
        ta = {{1, (int)draw(100), (int)draw(100)}, (int)draw(9)};
        r.list = {(int)draw(100), (int)draw(100), (int)draw(100)};
        if(draw(2)) o.emplace(words());
        if(draw(2)) v = W<C>(words());
        else v = (int)draw(50);
        // the rest
        z.tm.tm_year = (int)range(70, 199);
        z.tm.tm_mon = (int)draw(12);
        z.tm.tm_mday = (int)range(1, 28);
        z.tm.tm_hour = (int)draw(24);
        z.tm.tm_min = (int)draw(60);
        z.tm.tm_sec = (int)draw(60);
        z.tm.tm_wday = (int)draw(7);
        z.tm.tm_yday = (int)draw(365);
        z.path_text = "/d" + words() + "/e" + words();
        z.path = z.path_text;
        z.pi = {(int)draw(100), W<C>(words())};
        z.pf.first = W<C>(words());
        z.pf.second.text = words();
        for(u64 n = range(1, 5); n--;) z.list.push_back((int)draw(100));
        for(u64 n = draw(4); n--;) {
            static const char32_t ch[] = {U'a', U'\u00E9', U'\u4E2D', U'\U0001F600'};
            if(draw(3)) z.opts.emplace_back(papilio::utf::codepoint(pick(ch)));
            else z.opts.emplace_back(std::nullopt);
        }
        for(u64 n = draw(3); n--;) z.fmts.emplace_back(words());
        z.sep = W<C>(word(0, 3));
        z.ptr = reinterpret_cast<const void*>((std::uintptr_t)range(1, 0xFFFFF));
        for(u64 n = range(1, 4); n--;) z.sv.push_back((int)draw(100));
        for(u64 n = range(1, 4); n--;) z.fv.push_back((int)draw(100));
        for(u64 n = range(1, 3); n--;) z.ffm.try_emplace((int)draw(9), W<C>(words()));
        for(u64 n = range(1, 3); n--;) z.mg.try_emplace((int)draw(9), words());
        for(u64 n = range(1, 3); n--;) z.vb.push_back((bool)draw(2));
        for(u64 n = draw(4); n--;) z.set.insert((int)draw(100));
        for(u64 n = draw(3) ? draw(5) : range(20, 40); n--;) z.chars.push_back(C('a' + draw(26)));
        if(u64 k = draw(3); k == 1) z.var = (int)draw(100);
        else if(k == 2) z.var.template emplace<2>(words());
        z.num = (int)draw(100);
    }
    template <typename F>
    decltype(auto) apply(F&& fn) // the arguments are passed as plain lvalues
    {
        static const S ni = W<C>("n"), ns = W<C>("s"), nf = W<C>("f"), nr = W<C>("r"), nw = W<C>("w_1");
        using papilio::arg;
        return fn(i, w, d, f, sf, ad, st, vs, mi, mv, t, ta, r, ch, b, o, v, lz, e, s, cv, ne, u, z,
                  arg(ni.c_str(), i), arg(ns.c_str(), s), arg(nf.c_str(), f), arg(nr.c_str(), r), arg(nw.c_str(), w));
    }
    // formatting must not change its arguments
    std::string print() const
    {
        std::string x = n(s) + '|' + f.text + '|' + st.text + '|' + n(r.name) + '|' + r.fmt.text + '|' + (o ? o->text : "-") + '|' + (v.index() ? n(std::get<1>(v)) : "-") + '|' + n(std::get<1>(t)) + '|';
        for(auto& e : vs) x += n(e) + ',';
        for(auto& e : mi) x += n(e.first) + '=' + std::to_string(e.second) + ',';
        for(auto& e : r.list) x += std::to_string(e) + ',';
        x += n(z.pi.second) + '|' + n(z.pf.first) + z.pf.second.text + '|' + z.path.native() + '|' + n(z.ffm.begin()->second) + '|' + z.mg.begin()->second.text + '|';
        for(auto& e : z.fmts) x += e.text + ',';
        if(auto* f = std::get_if<2>(&z.var)) x += f->text;
        return x + std::to_string(i) + ',' + std::to_string(w) + ',' + std::to_string(sf.v);
    }
    // text of the values as the harness knows them
    static std::string n(const S& x) { return std::string(x.begin(), x.end()); }
    static std::string num(double x)
    {
        char b[40];
        std::snprintf(b, sizeof b, "%g", x);
        return b;
    }
    std::string fs(const Fmt& x) const { return "<" + x.text + ">"; }
    static std::string up(std::string x)
    {
        for(char& c : x)
            if(c >= 'a' && c <= 'z') c -= 32;
        return x;
    }
    static std::string pad(const std::string& x, char al, const std::string& fill, std::size_t w)
    {
        std::string l, r;
        if(x.size() < w)
        {
            std::size_t k = w - x.size(), left = al == '<' ? 0 : al == '>' ? k : k / 2;
            for(std::size_t j = 0; j < k; ++j) (j < left ? l : r) += fill;
        }
        return l + x + r;
    }
    static std::string pad(const std::string& x, char al, char fill, std::size_t w) { return pad(x, al, std::string(1, fill), w); }
};

struct Piece
{
    std::string fmt;  // ASCII format text
    std::string text; // what it must produce
};

// Automatic numbering: the index the next field without a name denotes, or -1 once the program has
// given an index of its own (which ends automatic numbering for the rest of the format string).
inline int auto_next = -1;
inline std::string arg_id(int a)
{
    if(auto_next == a)
    {
        ++auto_next;
        return "";
    }
    auto_next = -1;
    return std::to_string(a);
}

// One replacement field: the part between the braces, with its text.
template <typename C>
Piece field(const Pack<C>& p, int which)
{
    using P = Pack<C>;
    using S = std::basic_string<C>;
    auto id = [&](int a, const char* named = nullptr) { return named && draw(2) ? std::string(named) : arg_id(a); };
    auto ps = [&](const std::string& x) -> std::pair<std::string, std::string>
    { // spec and text of a string
        switch(draw(6))
        {
        case 0: return {"", x};
        case 1: return {":s", x};
        case 5:
            if(x.find('\0') != x.npos) return {":", x};
            return {":?", x};
        case 2: {
            std::string w = std::to_string(chance(1, 12) ? range(31, 300) : range(1, 30));
            switch(draw(4))
            {
            case 0: return {":\xC3\xA9>" + w, P::pad(x, '>', "\xC3\xA9", std::stoul(w))};
            case 1: return {":\xF0\x9F\x98\x80<" + w, P::pad(x, '<', "\xF0\x9F\x98\x80", std::stoul(w))};
            case 2: return {":" + w + (draw(2) ? "s" : ""), P::pad(x, '<', ' ', std::stoul(w))};
            default: return {":*^" + w, P::pad(x, '^', '*', std::stoul(w))};
            }
        }
        case 3: {
            if(draw(2) || auto_next >= 0) return {":>{w_1}", P::pad(x, '>', ' ', p.w)};
            return {":>{" + std::to_string(a_w) + "}", P::pad(x, '>', ' ', p.w)};
        }
        default: {
            u64 w = range(1, 20);
            return {":." + std::to_string(w), x.substr(0, w)};
        }
        }
    };
    auto pi = [&](long x) -> std::pair<std::string, std::string>
    {
        char b[64];
        auto based = [&](int base, const char* prefix, bool up = false) // an unpadded number in another base
        {
            static const char digits[] = "0123456789abcdef";
            std::string t;
            unsigned long v = x < 0 ? 0ul - (unsigned long)x : (unsigned long)x;
            do t.insert(t.begin(), digits[v % (unsigned)base]);
            while(v /= (unsigned)base);
            return std::string(x < 0 ? "-" : "") + prefix + (up ? P::up(t) : t);
        };
        switch(draw(16))
        {
        case 5: return {":x", based(16, "")};
        case 6: return {":#X", based(16, "0X", true)};
        case 7: return {":+#b", (x < 0 ? "" : "+") + based(2, "0b")};
        case 8: return {":#o", based(8, "0")};
        case 9: return {": ", (x >= 0 ? " " : "") + std::to_string(x)};
        case 10: return {":_<7", P::pad(std::to_string(x), '<', '_', 7)};
        case 11: return {":^8d", P::pad(std::to_string(x), '^', ' ', 8)};
        case 12: return {":#>{w_1}x", P::pad(based(16, ""), '>', '#', p.w)};
        case 13: return {":-B", based(2, "")};
        case 14:
        {
            std::string w = std::to_string(range(1, 9));
            return {":" + w, P::pad(std::to_string(x), '>', ' ', std::stoul(w))};
        }
        case 15:
            if(x > 32 && x < 127)
            {
                std::string w = std::to_string(range(1, 4));
                if(draw(2)) return {":" + w + "c", P::pad(std::string(1, (char)x), '<', ' ', std::stoul(w))};
                return {":c", std::string(1, (char)x)};
            }
            std::snprintf(b, sizeof b, "%+012ld", x);
            return {":+012", b};
        case 0: return {"", std::to_string(x)};
        case 1: return {":d", std::to_string(x)};
        case 2: return {":+", (x >= 0 ? "+" : "") + std::to_string(x)};
        case 3: std::snprintf(b, sizeof b, "%06ld", x); return {":06", b};
        default: return {":>{w_1}", P::pad(std::to_string(x), '>', ' ', p.w)};
        }
    };
    auto plain_spec = [&](std::string name, std::string text) { return Piece{name + (draw(2) ? ":" : ""), text}; };
    auto join = [&](auto& rng, auto&& fn, const char* sep)
    {
        std::string r;
        bool first = true;
        for(auto&& x : rng)
        {
            if(!first) r += sep;
            first = false;
            r += fn(x);
        }
        return r;
    };
    auto chars = [&](auto& x)
    { // a string as an element of a range is a range of characters
        std::string e = P::n(x), r;
        for(std::size_t k = 0; k < e.size(); ++k) r += (k ? ", " : "") + std::string(1, e[k]);
        return "[" + r + "]";
    };
    auto with = [&](std::string name, std::pair<std::string, std::string> s) { return Piece{name + s.first, s.second}; };
    switch(which)
    {
    case a_i:
        if(auto_next == a_i && draw(2))
        { // the width comes from the argument after the one formatted
            auto_next = a_w + 1;
            return Piece{":->{}", P::pad(std::to_string(p.i), '>', '-', p.w)};
        }
        return with(id(a_i, "n"), pi(p.i));
    case a_s:
        if(chance(1, 4) && !p.s.empty()) return Piece{id(a_s, "s") + "[0]", P::n(p.s).substr(0, 1)};
        if(chance(1, 4) && p.s.size() >= 3) return with(id(a_s, "s") + "[1:3]", ps(P::n(p.s).substr(1, 2)));
        if(chance(1, 6)) return Piece{id(a_s, "s") + ".length", std::to_string(p.s.size())};
        if(chance(1, 6))
        { // an index that may lie outside: the null character
            long n = (long)p.s.size(), k = (long)draw((u64)(2 * n + 5)) - n - 3, q = k < 0 ? n + k : k;
            return Piece{id(a_s, "s") + "[" + std::to_string(k) + "]", q >= 0 && q < n ? P::n(p.s).substr((std::size_t)q, 1) : std::string(1, '\0')};
        }
        if(chance(1, 6))
        { // a slice whose bounds may lie outside: clipped
            long n = (long)p.s.size(), f = (long)draw((u64)(2 * n + 5)) - n - 3, l = (long)draw((u64)(2 * n + 5)) - n - 3;
            auto lim = [&](long k) { return std::clamp(k < 0 ? n + k : k, 0L, n); };
            std::string from = f == 0 && draw(2) ? "" : std::to_string(f);
            return with(id(a_s, "s") + "[" + from + ":" + std::to_string(l) + "]", ps(lim(f) < lim(l) ? P::n(p.s).substr((std::size_t)lim(f), (std::size_t)(lim(l) - lim(f))) : ""));
        }
        return with(id(a_s, "s"), ps(P::n(p.s)));
    case a_d:
    {
        std::string n = id(a_d);
        char b[80];
        switch(draw(12))
        {
        case 1: return Piece{n + ":f", (std::snprintf(b, sizeof b, "%f", p.d), b)};
        case 2: return Piece{n + ":.2f", (std::snprintf(b, sizeof b, "%.2f", p.d), b)};
        case 3: return Piece{n + ":+.3e", (std::snprintf(b, sizeof b, "%+.3e", p.d), b)};
        case 4: return Piece{n + ": G", (std::snprintf(b, sizeof b, "% G", p.d), b)};
        case 5: return Piece{n + ":*^12.1F", (std::snprintf(b, sizeof b, "%.1F", p.d), P::pad(b, '^', '*', 12))};
        case 6: return Piece{n + ":E", (std::snprintf(b, sizeof b, "%E", p.d), b)};
        case 7: return Piece{n + ":>{w_1}.{w_1}f", (std::snprintf(b, sizeof b, "%.*f", p.w, p.d), P::pad(b, '>', ' ', p.w))};
        case 8: return Piece{n + ":9", P::pad(P::num(p.d), '>', ' ', 9)};
        case 9: return Piece{n + ":10.2f", (std::snprintf(b, sizeof b, "%10.2f", p.d), b)};
        case 10: return Piece{n + ":<9.1f", (std::snprintf(b, sizeof b, "%.1f", p.d), P::pad(b, '<', ' ', 9))};
        default: return Piece{n, P::num(p.d)};
        }
    }
    case a_f:
        if(draw(2)) return Piece{id(a_f, "f") + ":u", "<" + P::up(p.f.text) + ">"};
        return plain_spec(id(a_f, "f"), p.fs(p.f));
    case a_sf:
        if(draw(2)) return Piece{id(a_sf) + ":#", "[#" + std::to_string(p.sf.v) + "]"};
        return plain_spec(id(a_sf), "[" + std::to_string(p.sf.v) + "]");
    case a_ad: return Piece{id(a_ad), "(" + std::to_string(p.ad.v) + ")"};
    case a_st:
    {
        if(draw(2)) return Piece{id(a_st), p.st.text};
        std::string w = std::to_string(range(1, 30));
        return Piece{id(a_st) + ":_>" + w, P::pad(p.st.text, '>', '_', std::stoul(w))};
    }
    case a_vs:
        if(!p.vs.empty() && draw(2))
        {
            u64 k = draw(p.vs.size());
            std::string e = P::n(p.vs[k]);
            std::string nm = id(a_vs) + "[" + (draw(2) ? std::to_string(k) : std::to_string((long)k - (long)p.vs.size())) + "]";
            if(draw(2) && e.size() > 1) return Piece{nm + "[1]", e.substr(1, 1)};
            return with(nm, ps(e));
        }
        if(draw(2)) return Piece{id(a_vs) + ":n:", join(p.vs, chars, ", ")};
        return Piece{id(a_vs) + "::", "[" + join(p.vs, chars, ", ") + "]"};
    case a_mi:
        if(chance(1, 3))
        {
            auto entry = [](auto& e) { return P::n(e.first) + ": " + std::to_string(e.second); };
            if(draw(2)) return Piece{id(a_mi) + ":m", "{" + join(p.mi, entry, ", ") + "}"};
            return Piece{id(a_mi) + ":n:m", join(p.mi, entry, ", ")};
        }
        if(draw(2)) return with(id(a_mi) + "['abc']", pi(p.mi.at(W<C>("abc"))));
        return with(id(a_mi) + ".min", pi(p.mi.begin()->second));
    case a_mv:
        if(draw(2)) return with(id(a_mv) + "['k'][1]", pi(p.mv.begin()->second[1]));
        return Piece{id(a_mv) + "['k']", "[" + join(p.mv.begin()->second, [](int x) { return std::to_string(x); }, ", ") + "]"};
    case a_t:
        if(chance(1, 3)) return with(id(a_t) + "[0]", pi(std::get<0>(p.t)));
        if(chance(1, 2)) return with(id(a_t) + "[-1]", ps(P::n(std::get<1>(p.t))));
        return Piece{id(a_t), "(" + std::to_string(std::get<0>(p.t)) + ", " + P::n(std::get<1>(p.t)) + ")"};
    case a_ta:
        if(draw(2)) return with(id(a_ta) + "[0][1]", pi(std::get<0>(p.ta)[1]));
        return Piece{id(a_ta) + "[0]", "[" + join(std::get<0>(p.ta), [](int x) { return std::to_string(x); }, ", ") + "]"};
    case a_r:
    {
        std::string r = id(a_r, "r");
        if(chance(1, 4)) r += ".rec";
        if(chance(1, 8)) r += ".rec";
        switch(draw(14))
        {
        case 0: return with(r + ".name", ps(P::n(p.r.name)));
        case 1: return with(r + ".copy", ps(P::n(p.r.name)));
        case 2:
            if(p.r.name.size() > 1) return Piece{r + ".copy[1]", P::n(p.r.name).substr(1, 1)};
            [[fallthrough]];
        case 3:
            if(p.r.name.size() > 3) return with(r + ".copy[1:3]", ps(P::n(p.r.name).substr(1, 2)));
            [[fallthrough]];
        case 4: return with(r + ".num", pi(p.r.num));
        case 5: return plain_spec(r + ".fmt", p.fs(p.r.fmt));
        case 6: return plain_spec(r + ".own", p.fs(p.r.fmt));
        case 7: return plain_spec(r + ".small", "[" + std::to_string(p.r.num) + "]");
        case 8: return with(r + "[1]", pi(p.r.list[1]));
        case 9: return with(r + "[-1]", pi(p.r.list[2]));
        case 10: return with(r + "['n']", ps(P::n(p.r.name)));
        case 11: return Piece{r + "['f']:u", "<" + P::up(p.r.fmt.text) + ">"};
        case 12: return with(r + ".list[2]", pi(p.r.list[2]));
        default: return with(r + ".lcopy[2]", pi(p.r.list[2]));
        }
    }
    case a_ch:
        if(chance(1, 4)) return Piece{id(a_ch) + ":d", std::to_string((int)p.ch)};
        if(chance(1, 4)) return Piece{id(a_ch) + ":-^6", P::pad(std::string(1, (char)p.ch), '^', '-', 6)};
        if(chance(1, 4))
        {
            std::size_t w = (std::size_t)range(1, 6);
            return Piece{id(a_ch) + ":" + std::to_string(w) + (draw(2) ? "c" : ""), P::pad(std::string(1, (char)p.ch), '<', ' ', w)};
        }
        return Piece{id(a_ch) + (draw(2) ? ":c" : ""), std::string(1, (char)p.ch)};
    case a_b:
        if(chance(1, 4)) return Piece{id(a_b) + ":#x", p.b ? "0x1" : "0x0"};
        if(chance(1, 4)) return Piece{id(a_b) + ":7", P::pad(p.b ? "true" : "false", '<', ' ', 7)};
        if(chance(1, 4)) return Piece{id(a_b) + ":.>7", P::pad(p.b ? "true" : "false", '>', '.', 7)};
        return Piece{id(a_b) + (draw(2) ? ":s" : ""), p.b ? "true" : "false"};
    case a_o:
        if(p.o && draw(2)) return plain_spec(id(a_o) + ".value", p.fs(*p.o));
        return Piece{id(a_o), p.o ? p.fs(*p.o) : "nullopt"};
    case a_v:
        if(draw(2)) return Piece{id(a_v) + ".index", std::to_string(p.v.index())};
        if(chance(1, 3)) return Piece{id(a_v) + "[" + std::to_string((long)p.v.index() - (draw(2) ? (long)std::variant_size_v<std::decay_t<decltype(p.v)>> : 0)) + "]", p.v.index() ? P::n(std::get<1>(p.v)) : std::to_string(std::get<0>(p.v))};
        if(draw(2)) return Piece{id(a_v) + ".value", p.v.index() ? P::n(std::get<1>(p.v)) : std::to_string(std::get<0>(p.v))};
        return Piece{id(a_v), p.v.index() ? P::n(std::get<1>(p.v)) : std::to_string(std::get<0>(p.v))};
    case a_lz:
        if(draw(2)) return Piece{id(a_lz) + ":n", join(p.lz, [](int x) { return std::to_string(x); }, ", ")};
        return Piece{id(a_lz), "[" + join(p.lz, [](int x) { return std::to_string(x); }, ", ") + "]"};
    case a_e:
    {
        std::string e = p.e == Hue::red ? "red" : p.e == Hue::green ? "green" : "blue";
        if(chance(1, 4)) return Piece{id(a_e) + ":d", std::to_string((int)p.e)};
        if(chance(1, 4)) return Piece{id(a_e) + ":~>8", P::pad(e, '>', '~', 8)};
        return Piece{id(a_e) + (draw(2) ? ":s" : ""), e};
    }
    case a_ne: return plain_spec(id(a_ne), "{" + std::to_string(p.ne.i) + "-" + P::pad(P::n(p.ne.s), '>', ' ', 3) + "{===\xC3\xA9\xC3\xA9" "a\\t\\\"" + std::to_string(p.w % 10));
    case a_u: return Piece{id(a_u), p.utext};
    case a_cv: return with(id(a_cv), ps(P::n(p.cv.text)));
    case a_z:
    {
        auto& z = p.z;
        std::string r = id(a_z) + ".", sep = P::n(z.sep);
        auto str = [](auto x) { return std::to_string(x); };
        auto list = [&](auto& c) { return "[" + join(c, str, ", ") + "]"; };
        char b[80];
        // a slice of a range of n elements, given with positive or negative bounds that may lie outside
        auto slice = [&](std::string name, auto& c)
        {
            long n = (long)c.size(), f = (long)draw((u64)n), l = f + 1 + (long)draw((u64)(n - f));
            std::string from = f == 0 ? (draw(3) ? draw(2) ? "0" : "" : std::to_string(-n - (long)draw(4))) : std::to_string(draw(2) ? f : f - n);
            std::string to = l == n ? draw(2) ? "" : std::to_string(n + (long)draw(4)) : std::to_string(draw(2) ? l : l - n);
            std::vector<long> e;
            for(long k = f; k < l; ++k) e.push_back(c[(std::size_t)k]);
            return Piece{name + "[" + from + ":" + to + "]", "[" + join(e, str, ", ") + "]"};
        };
        auto index = [&](std::string name, auto& c)
        {
            long n = (long)c.size(), k = (long)draw((u64)n);
            return with(name + "[" + std::to_string(draw(2) ? k : k - n) + "]", pi(c[(std::size_t)k]));
        };
        auto hex = [](int x)
        {
            char t[20];
            std::snprintf(t, sizeof t, "%#x", (unsigned)x);
            return x ? std::string(t) : "0x0";
        };
        switch(draw(46))
        {
        case 39: return Piece{r + "chars:s", P::n(S(z.chars.begin(), z.chars.end()))};
        case 40: return Piece{r + "chars:n", join(z.chars, [](C c) { return std::string(1, (char)c); }, ", ")};
        case 41: return Piece{r + "vec:n:#x", join(z.list, hex, ", ")};
        case 42: return Piece{r + "vec::->5", "[" + join(z.list, [](int x) { return P::pad(std::to_string(x), '>', '-', 5); }, ", ") + "]"};
        case 43: return Piece{r + "ptr:>12", (std::snprintf(b, sizeof b, "0x%lx", (unsigned long)reinterpret_cast<std::uintptr_t>(z.ptr)), P::pad(b, '>', ' ', 12))};
        case 44:
            if constexpr(std::is_same_v<C, char>) return Piece{r + "sty:05", (std::snprintf(b, sizeof b, "\033[1m\033[31m%05d\033[0m", z.num), b)};
            [[fallthrough]];
        case 45:
            if constexpr(std::is_same_v<C, char>) return Piece{r + "styf:u", "\033[32m<" + P::up(z.pf.second.text) + ">\033[0m"};
            [[fallthrough]];
        case 0:
        {
            static const char* const days[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
            static const char* const months[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
            std::snprintf(b, sizeof b, "%s %s %2d %02d:%02d:%02d %4d", days[z.tm.tm_wday], months[z.tm.tm_mon], z.tm.tm_mday, z.tm.tm_hour, z.tm.tm_min, z.tm.tm_sec, z.tm.tm_year + 1900);
            return Piece{r + "tm", b};
        }
        case 1: return Piece{r + "tm:%Y-%m", (std::snprintf(b, sizeof b, "%04d-%02d", z.tm.tm_year + 1900, z.tm.tm_mon + 1), b)};
        case 2: return Piece{r + "tm:*>12%H", (std::snprintf(b, sizeof b, "**********%02d", z.tm.tm_hour), b)};
        case 3: return with(r + "tm.year", pi(z.tm.tm_year + 1900));
        case 4: return with(r + "tm.hour", pi(z.tm.tm_hour));
        case 5: return with(r + "path", {"", z.path_text});
        case 6: return with(r + "path", {":g", z.path_text});
        case 7: return with(r + "path", {":*^60", P::pad(z.path_text, '^', '*', 60)});
        case 8: return Piece{r + "pi", "(" + str(z.pi.first) + ", " + P::n(z.pi.second) + ")"};
        case 9: return Piece{r + "pi:m", str(z.pi.first) + ": " + P::n(z.pi.second)};
        case 10: return Piece{r + "pi:n", str(z.pi.first) + ", " + P::n(z.pi.second)};
        case 11: return with(r + (draw(2) ? "pi.first" : "pi[0]"), pi(z.pi.first));
        case 12: return with(r + (draw(2) ? "pi.second" : "pi[-1]"), ps(P::n(z.pi.second)));
        case 13: return Piece{r + "pf", "(" + P::n(z.pf.first) + ", " + p.fs(z.pf.second) + ")"};
        case 14: return plain_spec(r + "pf.second", p.fs(z.pf.second));
        case 15: return Piece{r + "join", join(z.list, str, sep.c_str())};
        case 16: return Piece{r + "join:03", join(z.list, [](int x) { return (x < 10 ? "00" : x < 100 ? "0" : "") + std::to_string(x); }, sep.c_str())};
        case 17: return Piece{r + "ojoin", join(z.opts, [](auto& x) { if(!x) return std::string("nullopt");
            switch((char32_t)*x)
            {
            case U'a': return std::string("a");
            case U'\u00E9': return std::string("\xC3\xA9");
            case U'\u4E2D': return std::string("\xE4\xB8\xAD");
            default: return std::string("\xF0\x9F\x98\x80");
            }
        }, sep.c_str())};
        case 18: return Piece{r + "fjoin", join(z.fmts, [&](auto& x) { return p.fs(x); }, sep.c_str())};
        case 19: return Piece{r + "fjoin:u", join(z.fmts, [&](auto& x) { return "<" + P::up(x.text) + ">"; }, sep.c_str())};
        case 20: return Piece{r + "ptr", (std::snprintf(b, sizeof b, "0x%lx", (unsigned long)reinterpret_cast<std::uintptr_t>(z.ptr)), b)};
        case 21: return Piece{r + "null", "0x0"};
        case 22: return Piece{r + "tid", "thread::id of a non-executing thread"};
        case 23: return with(r + "type.name", ps("i"));
        case 24: return slice(r + "vec", z.list);
        case 25: return slice(r + "span", z.list);
        case 26: return index(r + "span", z.list);
        case 27: return slice(r + "sv", z.sv);
        case 28: return index(r + "sv", z.sv);
        case 29: return slice(r + "fv", z.fv);
        case 30: return Piece{r + "fv.size", str(z.fv.size())};
        case 31:
        {
            auto it = z.ffm.begin();
            return with(r + (draw(2) ? "ffm[" + str(it->first) + "]" : draw(2) ? "ffm.min" : "ffm[" + str(it->first) + "]"), ps(P::n(it->second)));
        }
        case 32:
            if(draw(2)) return plain_spec(r + "mg.max", p.fs(z.mg.begin()->second));
            if(draw(2)) return plain_spec(r + "mg.min", p.fs(std::prev(z.mg.end())->second));
            return plain_spec(r + "mg[" + str(z.mg.begin()->first) + "]", p.fs(z.mg.begin()->second));
        case 33: return Piece{r + "vb", "[" + join(z.vb, [](bool x) { return x ? "true" : "false"; }, ", ") + "]"};
        case 34:
        {
            long n = (long)z.vb.size(), k = (long)draw((u64)n);
            if(chance(1, 4)) return Piece{r + "vb.size", str(n)};
            return Piece{r + "vb[" + str(draw(2) ? k : k - n) + "]", z.vb[(std::size_t)k] ? "true" : "false"};
        }
        case 35:
            if(draw(2)) return Piece{r + "set:n", join(z.set, str, ", ")};
            return Piece{r + "set", "{" + join(z.set, str, ", ") + "}"};
        case 36:
            if(auto* f = std::get_if<2>(&z.var); f && draw(2)) return plain_spec(r + (draw(2) ? "var[2]" : "var.value"), p.fs(*f));
            return Piece{r + "var", z.var.index() == 2 ? p.fs(std::get<2>(z.var)) : z.var.index() ? str(std::get<1>(z.var)) : "monostate"};
        case 37: return with(r + "sr.t", ps(SRec<C>::text(z.num)));
        case 38: return plain_spec(r + "sr.f", "<" + SRec<C>::text(z.num) + ">");
        default:
            if(draw(2)) return with(r + "sr[3]", ps(SRec<C>::text(z.num + 3)));
            if(draw(2)) return with(r + "sr['ab']", ps(SRec<C>::text(z.num + 2)));
            return with(r + "sr[4:7]", ps(SRec<C>::text(z.num + 4)));
        }
    }
    default: return with(id(a_w, "w_1"), pi(p.w));
    }
}

template <typename C>
std::pair<std::string, bool> condition(const Pack<C>& p)
{
    using P = Pack<C>;
    switch(draw(18))
    {
    case 0:
    {
        std::string a = "{" + (draw(2) ? "n" : arg_id(a_i)) + "}";
        return {a + (draw(2) ? "" : " != 0"), p.i != 0};
    }
    case 1: return {"!{n}", p.i == 0};
    case 2: return {"{" + arg_id(a_i) + "} < 3", p.i < 3};
    case 3: return {"{n} >= {w_1}", p.i >= p.w};
    case 4: return {"{s}", !p.s.empty()};
    case 5: return {"{r.copy} == {r.name}", true};
    case 6: return {"{r.copy} != 'x'", p.r.name != W<C>("x")};
    case 7: return {"{r.num} > 4", p.r.num > 4};
    case 8: return {"{r.rec.name} == {r.name}", true}; // refers into an intermediate object
    case 9: return {"{r.rec.rec.name[0:2]} != 'x'", P::n(p.r.name).substr(0, 2) != "x"};
    case 10: return {"{" + arg_id(a_z) + ".sr.t} == '" + SRec<C>::text(p.z.num) + "'", true};
    case 11:
    {
        std::string a = "{" + arg_id(a_z) + ".sr[2]} == ";
        return {a + "{" + arg_id(a_z) + ".sr['ab']}", true};
    }
    case 12: return {"{" + arg_id(a_z) + ".vb[0]}", p.z.vb[0]};
    case 13: return {"{" + arg_id(a_z) + ".pi.second} == ''", p.z.pi.second.empty()};
    case 14: return {"{" + arg_id(a_d) + "} < 0.5", p.d < 0.5};
    case 15: return {"!{" + arg_id(a_z) + ".tm.hour}", p.z.tm.tm_hour == 0};
    case 16: return {"{" + arg_id(a_vs) + ".size} == 2", p.vs.size() == 2};
    default:
    {
        std::string x = P::n(p.r.name);
        return {"{r.rec.copy} == '" + x + "'", true};
    }
    }
}

template <typename C>
Piece branch(const Pack<C>& p)
{
    if(chance(1, 3))
    {
        std::string w = Pack<C>::word(0, 30);
        return {"'" + w + "'", w};
    }
    static const int likely[] = {a_f, a_sf, a_r, a_st, a_s, a_vs};
    Piece f = field(p, auto_next >= 0 && auto_next < a_count && chance(7, 8) ? auto_next : chance(1, 2) ? pick(likely) : (int)draw(a_count));
    return {"{" + f.fmt + "}", f.text};
}

// A piece is independent of its neighbours.
template <typename C>
Piece piece(const Pack<C>& p)
{
    u64 r = draw(10);
    if(r < 2)
    {
        std::string w = draw(2) ? Pack<C>::word(1, 20) : Pack<C>::uni(5);
        if(chance(1, 8)) w += '\0';
        return {w, w};
    }
    if(r == 2) return draw(2) ? Piece{"{{", "{"} : Piece{"}}", "}"};
    if(r < 8)
    {
        static const int likely[] = {a_f, a_r, a_st, a_s};
        Piece f = field(p, auto_next >= 0 && auto_next < a_count && chance(7, 8) ? auto_next : chance(1, 4) ? pick(likely) : (int)draw(a_count));
        return {"{" + f.fmt + "}", f.text};
    }
    auto [c, truth] = condition(p);
    Piece a = branch(p);
    std::string fmt = "{$ " + c + " ? " + a.fmt, text = truth ? a.text : "";
    bool done = truth;
    if(chance(1, 3))
    {
        auto [c2, t2] = condition(p);
        Piece b = branch(p);
        fmt += " : $ " + c2 + " ? " + b.fmt;
        if(!done && t2) text = b.text;
        done = done || t2;
    }
    if(chance(2, 3))
    {
        Piece b = branch(p);
        fmt += " : " + b.fmt;
        if(!done) text = b.text;
    }
    return {fmt + "}", text};
}

struct Program
{
    std::vector<Piece> pieces;
    std::string fmt, text;
};
template <typename C>
Program program(const Pack<C>& p, u64 max_pieces)
{
    Program g;
    auto_next = chance(1, 4) ? 0 : -1;
    for(u64 n = range(1, auto_next < 0 ? max_pieces : max_pieces + 5), k = 0; k < n; ++k)
    {
        op_begin();
        g.pieces.push_back(piece(p));
        g.fmt += g.pieces.back().fmt;
        g.text += g.pieces.back().text;
    }
    return g;
}
} // namespace fw
