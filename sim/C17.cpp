// C17: any format string ends in text or in one reported error.
// SIM: parts=8
#include "xwork.hpp"
#include <locale>
#include <memory>
#include <typeinfo>

using namespace sim;
using namespace fw;

namespace c17
{
enum How : int
{
    q_vformat,
    q_vformat_to,
    q_range,
    q_sink,
    q_n,
    q_size,
    q_count
};
static const char* const how_name[] = {"vformat", "vformat_to", "formatted_range", "format_to(iterator)", "format_to_n(iterator)", "formatted_size"};

template <typename C>
using Ctx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
template <typename C>
using Store = papilio::basic_dynamic_format_args<Ctx<C>, C>;

template <typename C>
struct It // an output iterator that notices when it is used through an outdated copy
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    std::basic_string<C>* s;
    std::size_t pos = 0;
    It& operator*() { return *this; }
    It& operator++() { return *this; }
    It operator++(int) { return *this; }
    It& operator=(C c)
    {
        if(pos != s->size()) flag("stale-iterator", "a character was written through an outdated copy of the output iterator");
        *s += c;
        ++pos;
        return *this;
    }
};

template <typename C>
struct Res
{
    std::basic_string<C> text; // what came out, also in front of an error
    long size = -1;
    std::string error;         // type and message
    bool oom = false;
};

template <typename C>
Res<C> by_store(int how, std::basic_string_view<C> f, const Store<C>& store);
template <typename C>
constexpr bool external = !std::is_same_v<C, char> && !std::is_same_v<C, wchar_t>;
template <typename C>
struct PackOf
{
    using type = Pack<C>;
};
template <typename C>
requires external<C>
struct PackOf<C>
{
    using type = xw::XPack<C>;
};
template <typename C>
using Args = typename PackOf<C>::type;
template <typename C>
Res<C> by_args(int how, std::basic_string_view<C> f, Args<C>& p, long n);
template <typename C>
Res<C> by_size(std::basic_string_view<C> f, Args<C>& p);

// Runs fn and turns what it throws into the result.
template <typename C, typename F>
void guarded(Res<C>& r, F&& fn)
{
    try
    {
        fn();
    }
    catch(const Violation&)
    {
        throw;
    }
    catch(const std::bad_alloc&)
    {
        r.oom = true;
    }
    catch(const std::exception& e)
    {
        disarm_oom();
        Harness h;
        r.error = std::string(typeid(e).name()) + ": " + e.what();
        if(!dynamic_cast<const papilio::format_error*>(&e) && !dynamic_cast<const std::out_of_range*>(&e) && !dynamic_cast<const papilio::invalid_attribute_base*>(&e) && !dynamic_cast<const papilio::invalid_conversion*>(&e)
           && typeid(e) != typeid(std::runtime_error) && typeid(e) != typeid(std::invalid_argument)) // "index unavailable", "invalid indexing value"
            flag("strange-error", "an exception came out that is none of the library's errors: %s", r.error.c_str());
    }
    catch(...)
    {
        disarm_oom();
        flag("strange-error", "something that is no std::exception came out");
    }
}

#if SIM_PART == 0 || SIM_PART == 1 || SIM_PART >= 5
template <typename C>
Res<C> by_store(int how, std::basic_string_view<C> f, const Store<C>& store)
{
    Res<C> r;
    guarded(r, [&]
    {
        if(how == q_vformat) r.text = papilio::vformat(f, store);
        else if(how == q_vformat_to) papilio::vformat_to(std::back_inserter(r.text), f, store);
        else if constexpr(!external<C>)
        {
            papilio::formatted_range<C> rng(f, store);
            auto e = rng.end();
            for(auto it = rng.begin(); !(it == e); ++it)
            {
                C c = *it;
                Harness h;
                r.text += c;
            }
        }
    });
    return r;
}
#endif
#if SIM_PART == 2 || SIM_PART == 3 || SIM_PART >= 5
template <typename C>
Res<C> by_args(int how, std::basic_string_view<C> f, Args<C>& p, long n)
{
    Res<C> r;
    guarded(r, [&]
    {
        p.apply([&](auto&&... a)
        {
            if(how == q_sink) papilio::format_to(It<C>{&r.text}, f, a...);
            else
            {
                auto e = papilio::format_to_n(It<C>{&r.text}, n, f, a...);
                r.size = e.size;
                if(e.out.pos != r.text.size()) flag("wrong-end", "format_to_n returned an outdated iterator");
            }
        });
    });
    return r;
}
#endif
#if SIM_PART >= 4
template <typename C>
Res<C> by_size(std::basic_string_view<C> f, Args<C>& p)
{
    Res<C> r;
    guarded(r, [&] { p.apply([&](auto&&... a) { r.size = (long)papilio::formatted_size(f, a...); }); });
    return r;
}
#endif
#if SIM_PART == 1
template Res<wchar_t> by_store<wchar_t>(int, std::wstring_view, const Store<wchar_t>&);
#elif SIM_PART == 2
template Res<char> by_args<char>(int, std::string_view, Pack<char>&, long);
#elif SIM_PART == 3
template Res<wchar_t> by_args<wchar_t>(int, std::wstring_view, Pack<wchar_t>&, long);
#elif SIM_PART == 4
template Res<char> by_size<char>(std::string_view, Pack<char>&);
template Res<wchar_t> by_size<wchar_t>(std::wstring_view, Pack<wchar_t>&);
#elif SIM_PART >= 5
using X = std::tuple_element_t<SIM_PART - 5, std::tuple<char8_t, char16_t, char32_t>>;
template Res<X> by_store<X>(int, std::basic_string_view<X>, const Store<X>&);
template Res<X> by_args<X>(int, std::basic_string_view<X>, Args<X>&, long);
template Res<X> by_size<X>(std::basic_string_view<X>, Args<X>&);
#endif

#if SIM_PART == 0
template Res<char> by_store<char>(int, std::string_view, const Store<char>&);
extern template Res<wchar_t> by_store<wchar_t>(int, std::wstring_view, const Store<wchar_t>&);
extern template Res<char> by_args<char>(int, std::string_view, Pack<char>&, long);
extern template Res<wchar_t> by_args<wchar_t>(int, std::wstring_view, Pack<wchar_t>&, long);
extern template Res<char> by_size<char>(std::string_view, Pack<char>&);
extern template Res<wchar_t> by_size<wchar_t>(std::wstring_view, Pack<wchar_t>&);
extern template Res<char8_t> by_store<char8_t>(int, std::basic_string_view<char8_t>, const Store<char8_t>&);
extern template Res<char8_t> by_args<char8_t>(int, std::basic_string_view<char8_t>, Args<char8_t>&, long);
extern template Res<char8_t> by_size<char8_t>(std::basic_string_view<char8_t>, Args<char8_t>&);
extern template Res<char16_t> by_store<char16_t>(int, std::basic_string_view<char16_t>, const Store<char16_t>&);
extern template Res<char16_t> by_args<char16_t>(int, std::basic_string_view<char16_t>, Args<char16_t>&, long);
extern template Res<char16_t> by_size<char16_t>(std::basic_string_view<char16_t>, Args<char16_t>&);
extern template Res<char32_t> by_store<char32_t>(int, std::basic_string_view<char32_t>, const Store<char32_t>&);
extern template Res<char32_t> by_args<char32_t>(int, std::basic_string_view<char32_t>, Args<char32_t>&, long);
extern template Res<char32_t> by_size<char32_t>(std::basic_string_view<char32_t>, Args<char32_t>&);

// Pieces of the grammar, whole and in parts.
static const char* const snippets[] = {
    "{", "}", "{{", "}}", "{}", "{:", "{$", "{$ ", " ? ", " : ", "?", ":", "!", "'", "'a'", "\"", "[", "]", "[0]", "[-1]", "[:]", "[1:", "[:-1]", "['k']", "['", ".", ".x", ".length", ".name",
    "{0", "{0}", "{s}", "{s.", "{s[", "{z.", "{r.rec", "{z.vec", "{2:", "{4:", "{f:u", "{n:", "{:>", "{:{", "{:.{", "{:{}.{}}", "{0:{s}}", "{0:{n}}", ":#", ":+", ":0", ":x}", ":?}", ":L}", ":n}", "::}", ":n:", ":*^", ":.",
    " == ", " != ", " < ", " >= ", "&&", "||", "!{", "1.5", "-", "-1", "0.", ".5", "1e", "==", "=", "<", "\\", "\\'", "\\n", "{$ {n} ? 'x' : ", "{$ {s} == 'q' ? '' : $ ", "{$ 'a' ? 'b'", "{$ !{n} ? {s} : {f}}",
    "{$ {0} ? {$ {1} ? 'x'}}", "{18446744073709551616}", "{18446744073709551615}", "{18446744073709551611}", "{4294967296}", "{0[99999999999999999999]}", "{s[99999999999999999999]}", "{s[-99999999999999999999:3]}", "{s[9223372036854775807]}", "{s[-9223372036854775808]}", "\n", "\t", "\r", "\xC3\xA9", "\xE4\xB8\xAD", "\xF0\x9F\x98\x80", "{:\xE4\xB8\xAD^9}", "{\xC3\xA9}"};

template <typename T>
T pick_of(std::initializer_list<T> l)
{
    return l.begin()[draw(l.size())];
}

template <typename C>
void mutate(std::basic_string<C>& f)
{
    static const char chars[] = "{}{}{}:$?![]'.\"0123-,<>=&|# \\^*+xcs_n";
    auto at = [&] { return (std::size_t)draw(f.size() + 1); };
    auto ch = [&]
    {
        switch(draw(8))
        {
        case 6: return pick_of({C('a'), C('\0'), C(0x7F), C('\r')});
        case 7:
            if constexpr(sizeof(C) > 1) return pick_of({C(0xE9), C(0x4E2D), C(0x1F600), C(0x10FFFF), C(0xFFFD)});
            [[fallthrough]];
        default: return C(chars[draw(sizeof chars - 1)]);
        }
    };
    switch(draw(9))
    {
    case 0: f.resize(at()); break;
    case 1: f.erase(0, at()); break;
    case 2:
        if(!f.empty()) f.erase(draw(f.size()), 1);
        break;
    case 3: f.insert(at(), 1, ch()); break;
    case 4:
        if(!f.empty()) f[draw(f.size())] = ch();
        break;
    case 5:
    {
        std::size_t a = at(), n = draw(12);
        std::basic_string<C> part = f.substr(a, n);
        f.insert(at(), part);
        break;
    }
    case 6:
        if(f.size() > 1) std::swap(f[draw(f.size())], f[draw(f.size())]);
        break;
    default:
        for(u64 k = range(1, 3); k--;) f.insert(at(), W<C>(pick(snippets)));
        break;
    }
}
// No field shall be wider than 999: numbers of more digits only after '{', '[', '-' or ':' of an index.
template <typename C>
void tame(std::basic_string<C>& f)
{
    std::size_t run = 0;
    for(std::size_t k = 0; k < f.size();)
    {
        bool digit = f[k] >= C('0') && f[k] <= C('9');
        run = digit ? run + 1 : 0;
        if(run > 3)
        {
            std::size_t b = k - run + 1;
            bool index = b && (f[b - 1] == C('{') || f[b - 1] == C('[') || (f[b - 1] == C('-') && b > 1 && f[b - 2] == C('[')));
            // a width may follow "{:" or a nested '}' only
            if(!index)
            {
                f.erase(k, 1);
                --run;
                continue;
            }
        }
        ++k;
    }
}

// Format strings are well-formed text: what is left of a damaged encoding goes.
template <typename C>
void well_formed(std::basic_string<C>& f)
{
    std::basic_string<C> out;
    for(std::size_t k = 0; k < f.size();)
    {
        if constexpr(sizeof(C) == 1)
        {
            const unsigned char c = (unsigned char)f[k];
            const std::size_t n = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
            bool ok = n && k + n <= f.size();
            char32_t cp = n == 1 ? c : c & (0xFF >> (n + 1));
            for(std::size_t j = 1; ok && j < n; ++j)
            {
                const unsigned char d = (unsigned char)f[k + j];
                ok = (d & 0xC0) == 0x80;
                cp = cp << 6 | (d & 0x3F);
            }
            static const char32_t least[] = {0, 0, 0x80, 0x800, 0x10000};
            if(ok && cp >= least[n] && cp <= 0x10FFFF && !(cp >= 0xD800 && cp < 0xE000)) out.append(f, k, n), k += n;
            else ++k;
        }
        else if constexpr(sizeof(C) == 2)
        {
            const C c = f[k++];
            if(c < 0xD800 || c > 0xDFFF) out += c;
            else if(c < 0xDC00 && k < f.size() && f[k] >= 0xDC00 && f[k] <= 0xDFFF) out += c, out += f[k++];
        }
        else
        {
            const std::uint32_t c = (std::uint32_t)f[k++];
            if(c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000)) out += (C)c;
        }
    }
    f = std::move(out);
}

template <typename C>
void run_as()
{
    {
        Args<C> p;
        Store<C> store;
        p.apply([&](auto&&... a) { store.append(a...); });
        const std::string print = p.print();
        for(u64 rounds = range(1, 3), q = 0; q < rounds; ++q)
        {
            std::basic_string<C> f;
            if(draw(4))
            {
                if constexpr(external<C>) f = W<C>(p.program(3).fmt);
                else f = W<C>(program(p, 3).fmt);
            }
            for(u64 k = range(1, 4); k--;) mutate(f);
            if(f.size() > 400) f.resize(400);
            tame(f);
            well_formed(f);
            // exactly as long as the string: the sanitizer sees any step beyond it
            std::unique_ptr<C[]> b(new C[f.size()]);
            std::copy(f.begin(), f.end(), b.get());
            const std::basic_string_view<C> v(b.get(), f.size());
            std::string shown = esc(N<C>(v), 400);
            ev("fmt \"%s\"", shown.c_str());
            mix_bytes(f.data(), f.size() * sizeof(C));
            auto call = [&](int how, long n) -> Res<C>
            {
                if(how <= q_range) return by_store<C>(how, v, store);
                if(how <= q_n) return by_args<C>(how, v, p, n);
                return by_size<C>(v, p);
            };
            op_begin();
            const Res<C> ref = call(q_vformat_to, 0); // shows what is in front of an error
            if(flagged()) return;
            if(ref.oom) fail("spurious", "\"%s\" gave bad_alloc although no allocation failed", shown.c_str());
            if(ref.error.empty()) probe("format string that is none the worse for its damage");
            else nontrivial(), fault("format-error");
            if(ref.text.size() > 20000) return; // (wide fields of wide fields)
            mark_state(std::hash<std::string>()(ref.error));
            ev("  -> \"%s\" %s", esc(N<C>(std::basic_string_view<C>(ref.text)), 60).c_str(), ref.error.c_str());
            for(u64 calls = range(2, 6), c = 0; c < calls; ++c)
            {
                op_begin();
                const int how = (int)(external<C> ? pick_of({q_vformat, q_vformat_to, q_sink, q_n, q_size}) : (How)draw(q_count));
                const long n = (long)draw(ref.text.size() + 3);
                auto judge = [&](const Res<C>& r, const char* when)
                {
                    auto what = [&] { return std::string(when) + how_name[how] + (how == q_n ? " n=" + std::to_string(n) : "") + " of \"" + shown + "\""; };
                    const std::size_t reach = how == q_n ? std::min<std::size_t>((std::size_t)n, ref.text.size()) : ref.text.size();
                    const bool may_stop = how == q_n && n <= (long)ref.text.size(); // the bound lies in front of the error
                    if(r.error != ref.error && !(may_stop && r.error.empty()))
                        fail("different-error", "%s: \"%s\", vformat_to: \"%s\"", what().c_str(), r.error.c_str(), ref.error.c_str());
                    const std::basic_string<C> want = ref.text.substr(0, reach);
                    const bool whole = r.error.empty();
                    if(how == q_size || (how == q_vformat && !whole))
                    {
                        if(how == q_size && whole && r.size != (long)reach) fail("wrong-count", "%s counted %ld characters, vformat_to wrote %zu", what().c_str(), r.size, reach);
                        return;
                    }
                    if(how == q_range && !whole)
                    { // may end before the part that fails
                        if(want.compare(0, r.text.size(), r.text) != 0) fail("wrong-text", "%s gave \"%s\", vformat_to \"%s\"", what().c_str(), N<C>(r.text).c_str(), N<C>(want).c_str());
                        return;
                    }
                    if(r.text != want) fail("wrong-text", "%s gave \"%s\", vformat_to \"%s\"", what().c_str(), N<C>(r.text).c_str(), N<C>(want).c_str());
                    if(how == q_n && whole && r.size != (long)reach) fail("wrong-count", "%s reported %ld characters instead of %zu", what().c_str(), r.size, reach);
                };
                u64 a0 = sut_allocs(), blocks0 = live_blocks();
                {
                    Res<C> r;
                    {
                        Sut s;
                        r = call(how, n);
                    }
                    if(flagged()) return;
                    if(r.oom) fail("spurious", "%s of \"%s\" gave bad_alloc although no allocation failed", how_name[how], shown.c_str());
                    judge(r, "");
                }
                if(leaked_since(blocks0)) fail("leak", "%s of \"%s\" left memory allocated", how_name[how], shown.c_str());
                u64 total = sut_allocs() - a0;
                if(p.print() != print) fail("argument-changed", "%s of \"%s\" changed its arguments", how_name[how], shown.c_str());
                if(!total || draw(2)) continue;
                // and with an allocation failing on the way
                Oom mode = draw(4) == 3 ? Oom::bigger : draw(2) ? Oom::persistent : Oom::once;
                u64 k = mode == Oom::bigger ? range(1, 120) : draw(total), fired;
                {
                    Res<C> r;
                    {
                        Sut s;
                        arm_oom(mode, k);
                        r = call(how, n);
                        fired = oom_fired();
                        disarm_oom();
                    }
                    if(flagged()) return;
                    if(fired) nontrivial();
                    if(r.oom && !fired) fail("spurious", "%s of \"%s\" gave bad_alloc although no allocation failed", how_name[how], shown.c_str());
                    if(!r.oom) judge(r, fired ? "unnoticed failed allocation: " : "");
                    else if(ref.text.compare(0, r.text.size(), r.text) != 0) fail("wrong-text", "%s of \"%s\" wrote something else before an allocation failed", how_name[how], shown.c_str());
                }
                if(leaked_since(blocks0)) fail("leak", "%s of \"%s\" leaked when an allocation failed", how_name[how], shown.c_str());
                judge(call(how, n), "again: ");
            }
        }
        if(p.print() != print) fail("argument-changed", "the arguments are not what they were");
    }
}

void run()
{
    Points::reset();
    Ledger::live = 0;
    if(chance(1, 3)) run_as<wchar_t>();
    else if(chance(1, 4))
    {
        switch(draw(3))
        {
        case 0: run_as<char8_t>(); break;
        case 1: run_as<char16_t>(); break;
        default: run_as<char32_t>();
        }
    }
    else run_as<char>();
    if(flagged()) return;
    if(Ledger::live) fail("object-count", "%ld user objects too many or too few", Ledger::live);
}
#endif
} // namespace c17

#if SIM_PART == 0
const Property sim::property = {
    "C17", c17::run, 200000, 4000000, 20000000,
    "format strings made by cutting, deleting, inserting, replacing, duplicating and swapping characters and pieces of the grammar in valid programs, kept well-formed as text, over 23 arguments and more, in exact-size buffers; each through 2-6 of six output paths, with failing allocations; non-trivial: the string is in error or an allocation failed",
    "all of src/ and include/ (five character types), libstdc++ streams and strings",
    "output iterators, global operator new/delete (fault-injecting allocator), user types"};
#endif
