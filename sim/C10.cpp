// C10: a copy-on-write string container keeps its value, never touches what it
// refers to, and survives failed allocations at any point.
// SIM: src=utf/codepoint.cpp,utf/string.cpp,utf/stralgo.cpp
#include "sim.hpp"
#include <papilio/utf/string.hpp>
#include <list>
#include <memory>
#include <stdexcept>
#include <vector>

using namespace sim;
namespace pu = papilio::utf;

namespace
{
struct IterThrow
{
};
using Cps = std::u32string;

template <typename C>
std::basic_string<C> enc(const Cps& s)
{
    std::basic_string<C> r;
    for(char32_t c : s)
    {
        if constexpr(sizeof(C) == 1)
        {
            if(c < 0x80) r += (C)c;
            else if(c < 0x800) r += (C)(0xC0 | c >> 6), r += (C)(0x80 | (c & 63));
            else if(c < 0x10000) r += (C)(0xE0 | c >> 12), r += (C)(0x80 | (c >> 6 & 63)), r += (C)(0x80 | (c & 63));
            else r += (C)(0xF0 | c >> 18), r += (C)(0x80 | (c >> 12 & 63)), r += (C)(0x80 | (c >> 6 & 63)), r += (C)(0x80 | (c & 63));
        }
        else if constexpr(sizeof(C) == 2)
        {
            if(c < 0x10000) r += (C)c;
            else r += (C)(0xD800 + ((c - 0x10000) >> 10)), r += (C)(0xDC00 + ((c - 0x10000) & 0x3FF));
        }
        else r += (C)c;
    }
    return r;
}
char32_t rand_cp()
{
    static const char32_t pool[] = {U'a', U'b', U'Z', U' ', U'0', 0xE9, 0x3B1, 0x20AC, 0x4E2D, 0xFF01, 0x1F600, 0x10FFFF, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFD, 0x10000, 0xD7FF, 0xE000, 0xFFFF, 0x103FF, U'\0'};
    return pool[draw(sizeof(pool) / sizeof(*pool))];
}
Cps rand_cps(u64 max)
{
    Cps r;
    for(u64 n = skewed(max); n; --n) r += rand_cp();
    return r;
}
pu::codepoint cp(char32_t c) { return pu::decoder<char32_t>::to_codepoint(c).first; }
std::string show(const Cps& s) { return esc(enc<char>(s), 80); }

template <typename C>
struct Machine
{
    using SC = pu::basic_string_container<C>;
    using Str = std::basic_string<C>;
    using View = std::basic_string_view<C>;
    struct Slot
    {
        std::unique_ptr<SC> s;
        Cps v;
    };
    Slot sl[2];
    std::vector<std::unique_ptr<C[]>> bufs; // referenced strings, exact size
    std::vector<Str> copies;

    View backing(const Cps& s)
    {
        Str e = enc<C>(s);
        auto p = std::make_unique<C[]>(e.size() ? e.size() : 1);
        std::copy(e.begin(), e.end(), p.get());
        View v(p.get(), e.size());
        bufs.push_back(std::move(p));
        copies.push_back(e);
        return v;
    }
    void verify(const char* op, Slot& x)
    {
        const Cps& v = x.v;
        SC& s = *x.s;
        const SC& c = s;
        const bool own = s.has_ownership();
        const Str e = enc<C>(v);
        if(View(c) != e || c.to_string_view() != e || c.size() != e.size() || View(c.data(), c.size()) != e) fail("value", "%s: holds %s, expected %s", op, esc(std::string((const char*)c.data(), c.size() * sizeof(C)), 80).c_str(), show(v).c_str());
        if(c.empty() != v.empty() || c.length() != v.size()) fail("value", "%s: length %zu, expected %zu", op, c.length(), v.size());
        Cps got;
        for(auto it = c.begin(); it != c.end(); ++it) got += (char32_t)*it;
        if(got != v) fail("iteration", "%s: const iteration gives %s, value is %s", op, show(got).c_str(), show(v).c_str());
        got.clear();
        for(auto it = c.rbegin(); it != c.rend(); ++it) got.insert(got.begin(), (char32_t)*it);
        if(got != v) fail("iteration", "%s: const reverse iteration gives %s, value is %s", op, show(got).c_str(), show(v).c_str());
        got.clear();
        std::size_t guard = 0;
        for(auto it = s.begin(); it != s.end(); ++it)
        {
            got += (char32_t)(*it);
            if(++guard > v.size()) break;
        }
        if(got != v) fail("iteration", "%s: mutable iteration gives %s, value is %s", op, show(got).c_str(), show(v).c_str());
        got.clear();
        guard = 0;
        for(auto it = s.end(); it != s.begin();)
        {
            --it;
            got.insert(got.begin(), (char32_t)(*it));
            if(++guard > v.size()) break;
        }
        if(got != v) fail("iteration", "%s: mutable backward iteration gives %s, value is %s", op, show(got).c_str(), show(v).c_str());
        for(std::size_t i = 0; i < v.size(); ++i)
        {
            std::size_t r = v.size() - 1 - i;
            if((char32_t)pu::codepoint(c[i]) != v[i] || (char32_t)s[i] != v[i] || (char32_t)c.at(i) != v[i] || (char32_t)c.index_or(i, cp(U'?')) != v[i]) fail("index", "%s: character %zu of %s", op, i, show(v).c_str());
            if((char32_t)s.index(papilio::reverse_index, i) != v[r] || (char32_t)c.at(papilio::reverse_index, i) != v[r]) fail("index", "%s: character %zu from the end of %s", op, i, show(v).c_str());
        }
        if(!v.empty() && ((char32_t)c.front() != v.front() || (char32_t)c.back() != v.back())) fail("index", "%s: front/back of %s", op, show(v).c_str());
        bool oor = false;
        try
        {
            (void)c.at(v.size() + draw(2));
        }
        catch(const std::out_of_range&)
        {
            oor = true;
        }
        if(!oor || (char32_t)c.index_or(v.size(), cp(U'?')) != U'?') fail("index", "%s: access past the end of %s", op, show(v).c_str());
        if(!(c == e) || !(c == View(e)) || c.compare(View(e)) != 0) fail("compare", "%s: does not compare equal to its value", op);
        if(v.size() && c.compare(View(enc<C>(v.substr(0, v.size() - 1)))) <= 0) fail("compare", "%s: not greater than its own prefix", op);
        if(v.size())
        {
            std::size_t p = draw(v.size()), n = draw(v.size() - p + 1);
            char32_t w = v[p];
            if(!c.contains(cp(w)) || !c.contains(View(enc<C>(v.substr(p, n))))) fail("find", "%s: part of the string not found", op);
            auto it = c.find(cp(w));
            if((std::size_t)std::distance(c.begin(), it) != v.find(w)) fail("find", "%s: found at the wrong position", op);
            auto sub = c.substr(p, n);
            if(View(sub) != enc<C>(v.substr(p, n)) || sub.has_ownership()) fail("substr", "%s: substr(%zu,%zu) of %s", op, p, n, show(v).c_str());
            auto sub2 = c.substr(papilio::index_range((papilio::ssize_t)p, (papilio::ssize_t)(p + n)));
            if(View(sub2) != enc<C>(v.substr(p, n))) fail("substr", "%s: substr by range [%zu,%zu) of %s", op, p, p + n, show(v).c_str());
        }
        if(draw(3) == 0) queries(op, c, v);
        if(s.has_ownership() != own) fail("ownership", "%s: reading changed the ownership", op);
        for(std::size_t i = 0; i < bufs.size(); ++i)
            if(View(bufs[i].get(), copies[i].size()) != copies[i]) fail("wrote-through", "%s: a referenced string was modified", op);
        mix_bytes(e.data(), e.size() * sizeof(C));
        mark_state(v.size() * 4 + own * 2 + (e.size() != v.size()));
    }
    // Reading operations of the container and of a reference to it, and their agreement with other encodings.
    template <typename U>
    void across(const char* op, const SC& c, const Cps& v)
    {
        Cps o = v;
        switch(draw(4))
        {
        case 0: break;
        case 1: o += rand_cp(); break;
        case 2: o = o.substr(0, draw(o.size() + 1)); break;
        default: if(!o.empty()) o[draw(o.size())] = rand_cp();
        }
        const std::basic_string<U> e = enc<U>(o);
        std::unique_ptr<U[]> exact(new U[e.size()]); // no terminator
        std::copy(e.begin(), e.end(), exact.get());
        pu::basic_string_ref<U> other(exact.get(), e.size());
        pu::basic_string_ref<C> ref = c;
        const int want = v < o ? -1 : v == o ? 0 : 1;
        pu::basic_string_container<U> oc(other.to_string_view());
        int got = draw(2) ? c.compare(other) : draw(2) ? ref.compare(other) : c.compare(oc);
        if((got > 0) - (got < 0) != want) fail("compare", "%s: %s compares %d to %s of %zu-byte characters", op, show(v).c_str(), got, show(o).c_str(), sizeof(U));
        if((ref == other) != (want == 0) || (c == oc) != (want == 0) || (c == e) != (want == 0)) fail("compare", "%s: %s equal to %s of %zu-byte characters", op, show(v).c_str(), show(o).c_str(), sizeof(U));
        if(((ref <=> other) < 0) != (want < 0) || ((c <=> oc) < 0) != (want < 0) || ((ref <=> other) > 0) != (want > 0)) fail("compare", "%s: %s ordered with %s of %zu-byte characters", op, show(v).c_str(), show(o).c_str(), sizeof(U));
        // every way to write a comparison
        auto both = [&](const char* form, const auto& l, const auto& r, int w)
        {
            if((l == r) != (w == 0) || (l != r) != (w != 0) || (l < r) != (w < 0) || (l > r) != (w > 0) || (l <= r) != (w <= 0) || (l >= r) != (w >= 0))
                fail("compare", "%s: %s compared as %s with %s of %zu-byte characters", op, show(v).c_str(), form, show(o).c_str(), sizeof(U));
        };
        auto first = [&](const char* form, const auto& l, const auto& r)
        { // (ordering does not compile this way round)
            if((l == r) != (want == 0) || (l != r) != (want != 0))
                fail("compare", "%s: %s compared as %s with %s of %zu-byte characters in front", op, show(v).c_str(), form, show(o).c_str(), sizeof(U));
        };
        auto forms = [&](const char* form, const auto& x, const auto& y) { both(form, x, y, want), first(form, y, x); };
        switch(draw(8))
        {
        case 0: forms("ref and view", ref, std::basic_string_view<U>(exact.get(), e.size())); break;
        case 1: forms("ref and string", ref, e); break;
        case 2: forms("container and view", c, std::basic_string_view<U>(exact.get(), e.size())); break;
        case 3: forms("container and string", c, e); break;
        case 4: forms("container and container", c, oc); break;
        case 5: forms("ref and ref", ref, other); break;
        case 6:
            if(o.find(U'\0') == o.npos) both("ref and pointer", ref, e.c_str(), want), first("ref and pointer", e.c_str(), ref);
            break;
        default:
            if(o.find(U'\0') == o.npos) both("container and pointer", c, e.c_str(), want), first("container and pointer", e.c_str(), c);
        }
        if(ref.template to_string<U>() != enc<U>(v)) fail("convert", "%s: %s converted to %zu-byte characters", op, show(v).c_str(), sizeof(U));
    }
    void queries(const char* op, const SC& c, const Cps& v)
    {
        const Str e = enc<C>(v);
        pu::basic_string_ref<C> ref = c;
        // a part of the value, or something that may not occur in it
        Cps part = v.substr(draw(v.size() + 1));
        part = part.substr(0, draw(part.size() + 1));
        if(draw(3) == 0) part += rand_cp();
        const Str pe = enc<C>(part);
        const std::size_t from = draw(v.size() + 2);
        auto at = [&](auto it) { return (std::size_t)std::distance(c.cbegin(), it); };
        auto clip = [&](std::size_t x) { return x == Cps::npos ? v.size() : x; };
        if(std::size_t w = from > v.size() ? v.size() : clip(v.find(part, from)); at(c.find(View(pe), from)) != w || at(ref.find(pu::basic_string_ref<C>(pe), from)) != w)
            fail("find", "%s: %s in %s from %zu", op, show(part).c_str(), show(v).c_str(), from);
        char32_t ch = draw(2) || v.empty() ? rand_cp() : v[draw(v.size())];
        if(at(c.find(cp(ch), from)) != (from > v.size() ? v.size() : clip(v.find(ch, from)))) fail("find", "%s: U+%04X in %s from %zu", op, (unsigned)ch, show(v).c_str(), from);
        if(c.contains(cp(ch)) != (v.find(ch) != Cps::npos) || (c.contains(View(pe)) != (!part.empty() && v.find(part) != Cps::npos) && !part.empty())) fail("find", "%s: contains in %s", op, show(v).c_str());
        if(c.starts_with(View(pe)) != (v.compare(0, part.size(), part) == 0) || c.starts_with(cp(ch)) != (!v.empty() && v[0] == ch)) fail("find", "%s: %s starts with %s", op, show(v).c_str(), show(part).c_str());
        if(ref.ends_with(pu::basic_string_ref<C>(pe)) != (v.size() >= part.size() && v.compare(v.size() - part.size(), part.size(), part) == 0) || ref.ends_with(cp(ch)) != (!v.empty() && v.back() == ch))
            fail("find", "%s: %s ends with %s", op, show(v).c_str(), show(part).c_str());
        // slices with bounds counted from either side, possibly outside
        long n = (long)v.size(), f = (long)draw(2 * n + 3) - n - 1, l = (long)draw(2 * n + 3) - n - 1;
        const bool open_end = draw(4) == 0;
        auto pos = [&](long k) { return k >= 0 ? k : n + k; };
        const bool in = pos(f) >= 0 && pos(f) <= n && (open_end || (pos(l) >= 0 && pos(l) <= n));
        auto cut = [&](long a, long b) { return a < b ? v.substr((std::size_t)a, (std::size_t)(b - a)) : Cps(); };
        papilio::index_range rng = open_end ? papilio::index_range(f) : papilio::index_range(f, l);
        auto lim = [&](long k) { return std::clamp(pos(k), 0L, n); };
        if(draw(2))
        {
            bool threw = false;
            Str got;
            try
            {
                got = View(c.substr(rng));
            }
            catch(const std::out_of_range&)
            {
                threw = true;
            }
            if(threw != !in) fail("substr", "%s: [%ld, %ld%s) of %s %s", op, f, open_end ? n : l, open_end ? " (end)" : "", show(v).c_str(), threw ? "throws" : "does not throw");
            if(!threw && got != enc<C>(cut(pos(f), open_end ? n : pos(l)))) fail("substr", "%s: [%ld, %ld) of %s", op, f, open_end ? n : l, show(v).c_str());
        }
        else
        {
            auto got = ref.template substr<pu::substr_behavior::empty_string>(rng);
            if(View(got) != enc<C>(cut(lim(f), open_end ? n : lim(l)))) fail("substr", "%s: [%ld, %ld) clipped to %s", op, f, open_end ? n : l, show(v).c_str());
        }
        {
            std::size_t p0 = draw(v.size() + 2), cnt = draw(v.size() + 2);
            auto [part2, chars] = ref.template substr_extended<pu::substr_behavior::empty_string>(p0, cnt);
            Cps w = p0 > v.size() ? Cps() : v.substr(p0, cnt);
            if(View(part2) != enc<C>(w) || chars != w.size()) fail("substr", "%s: %zu characters from %zu of %s", op, cnt, p0, show(v).c_str());
            auto r2 = ref;
            r2.remove_prefix(p0);
            if(View(r2) != enc<C>(v.substr(std::min(p0, v.size())))) fail("substr", "%s: remove_prefix(%zu) of %s", op, p0, show(v).c_str());
            r2 = ref;
            r2.remove_suffix(cnt);
            if(View(r2) != enc<C>(v.substr(0, v.size() - std::min(cnt, v.size())))) fail("substr", "%s: remove_suffix(%zu) of %s", op, cnt, show(v).c_str());
        }
        // the algorithms on characters that end exactly at the bound
        std::unique_ptr<C[]> exact(new C[e.size()]);
        std::copy(e.begin(), e.end(), exact.get());
        std::size_t stop = v.find(U'\0') == Cps::npos ? v.size() : v.find(U'\0');
        if(pu::strlen(exact.get(), e.size()) != (sizeof(C) == 4 ? std::min(stop, e.size()) : stop) || pu::strlen(View(exact.get(), e.size())) != v.size()) fail("length", "%s: utf::strlen of %s", op, show(v).c_str());
        { // well-formed text: what to do with malformed one makes no difference
            using B = pu::strlen_behavior;
            const View ev(exact.get(), e.size());
            std::size_t n1 = 0, n2 = 0;
            switch(draw(3))
            {
            case 0: n1 = pu::strlen<B::ignore>(exact.get(), e.size()), n2 = pu::strlen<B::ignore>(ev); break;
            case 1: n1 = pu::strlen<B::stop>(exact.get(), e.size()), n2 = pu::strlen<B::stop>(ev); break;
            default: n1 = pu::strlen<B::exception>(exact.get(), e.size()), n2 = pu::strlen<B::exception>(ev);
            }
            if(n1 != stop || n2 != v.size()) fail("length", "%s: utf::strlen of %s is %zu and %zu (%zu-byte characters)", op, show(v).c_str(), n1, n2, sizeof(C));
        }
        if(!v.empty())
        { // a character put into strings
            const char32_t x = v[draw(v.size())];
            const Str xe = enc<C>(Cps(1, x));
            Str t = e;
            if(cp(x).append_to(t) != e + xe || &cp(x).append_to(t) != &t || t != e + xe + xe) fail("append", "%s: U+%04X appended to %s", op, (unsigned)x, show(v).c_str());
            t = e;
            cp(x).template append_to_as<C>(std::back_inserter(t));
            if(t != e + xe) fail("append", "%s: U+%04X appended to %s", op, (unsigned)x, show(v).c_str());
            std::size_t a = draw(e.size() + 1), n = draw(e.size() + 2 - a);
            t = e;
            cp(x).replace(t, a, n);
            if(t != Str(e).replace(a, n, xe)) fail("append", "%s: U+%04X put into %s", op, (unsigned)x, show(v).c_str());
        }
        if(std::size_t i = draw(v.size() + 2); i < v.size())
        {
            if(pu::index_offset(i, exact.get(), e.size()) != enc<C>(v.substr(0, i)).size() || c.get_offset(i) != enc<C>(v.substr(0, i)).size()) fail("index", "%s: offset of character %zu of %s", op, i, show(v).c_str());
            if(pu::index_offset(papilio::reverse_index, i, exact.get(), e.size()) != enc<C>(v.substr(0, v.size() - 1 - i)).size()) fail("index", "%s: offset of character %zu from the end of %s", op, i, show(v).c_str());
        }
        else if(pu::index_offset(i, View(exact.get(), e.size())) != pu::npos || pu::index_offset(papilio::reverse_index, i, View(c)) != pu::npos) fail("index", "%s: offset of character %zu of %s", op, i, show(v).c_str());
        switch(draw(5))
        {
        case 0: across<char>(op, c, v); break;
        case 1: across<char8_t>(op, c, v); break;
        case 2: across<char16_t>(op, c, v); break;
        case 3: across<char32_t>(op, c, v); break;
        default: across<wchar_t>(op, c, v);
        }
    }
    struct ThrowIt
    {
        using value_type = C;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        const C* p = nullptr;
        long left = -1;
        C operator*() const
        {
            if(left == 0)
            {
                Harness h;
                fault("throwing-iterator");
                nontrivial();
                throw IterThrow{};
            }
            return *p;
        }
        ThrowIt& operator++()
        {
            ++p;
            if(left > 0) --left;
            return *this;
        }
        void operator++(int) { ++*this; }
        bool operator==(const ThrowIt& o) const { return p == o.p; }
    };
    struct ThrowRange
    {
        ThrowIt b, e;
        ThrowIt begin() const { return b; }
        ThrowIt end() const { return e; }
    };

    void go()
    {
        for(auto& x : sl)
        {
            Sut s;
            x.s = std::make_unique<SC>();
        }
        const u64 faultiness = draw(4);
        const int nops = 1 + (int)draw(20);
        for(int step = 0; step < nops; ++step)
        {
            op_begin();
            int a = (int)draw(2), b = 1 - a, op = (int)draw(31);
            Slot& x = sl[a];
            Slot& y = sl[b];
            const Cps old = x.v;
            Cps val = rand_cps(24), want = old, wantb = y.v;
            char32_t w = rand_cp();
            std::size_t cnt = skewed(40), idx = old.empty() ? 0 : draw(old.size());
            const Str e = enc<C>(val);
            int own = -1; // expected ownership afterwards, -1: unspecified
            const char* name = "";
            C narrow = (C)U"abcdeXYZ"[draw(8)];
            View bk;
            switch(op)
            {
            case 0: name = "assign(view)"; bk = backing(val); want = val; own = 0; break;
            case 1: name = "assign(independent, view)"; bk = backing(val); want = val; own = 1; break;
            case 2: name = "assign(string&&)"; want = val; own = 1; break;
            case 3: name = "assign(independent, own value)"; own = 1; break;
            case 4: name = "assign(count, ch)"; want.assign(cnt, (char32_t)narrow); own = 1; break;
            case 5: name = "assign(count, cp)"; want.assign(cnt, w); own = 1; break;
            case 6: name = "assign_range(chars)"; want = val; own = 1; break;
            case 7: name = "assign_range(cps)"; want = val; own = 1; break;
            case 8: name = "assign_range(input)"; want = val; own = 1; break;
            case 9: name = "push_back(ch)"; want += (char32_t)narrow; own = 1; break;
            case 10: name = "push_back(cp)"; want += w; own = 1; break;
            case 11: name = "[]="; if(old.empty()) continue; want[idx] = w; own = 1; break;
            case 12: name = "*it="; if(old.empty()) continue; want[idx] = w; own = 1; break;
            case 13: name = "index(reverse)="; if(old.empty()) continue; want[old.size() - 1 - idx] = w; own = 1; break;
            case 14: name = "clear"; want.clear(); break;
            case 15: name = "obtain_ownership"; own = 1; break;
            case 16: name = "str() const&"; own = 1; break;
            case 17: name = "str() &&"; break;
            case 18: name = "c_str"; own = 1; break;
            case 19: name = "copy, then write to the copy"; break;
            case 20: name = "copy assign"; wantb = old; break;
            case 21: name = "move assign"; wantb = old; break;
            case 22: name = "swap"; wantb = old; want = y.v; break;
            case 23: name = "move construct"; wantb = old; break;
            case 24: name = "construct(independent, ...)"; want = val; own = 1; break;
            case 25: name = "construct(view)"; bk = backing(val); want = val; own = 0; break;
            case 26: name = "construct(count, cp)"; want.assign(cnt, w); own = 1; break;
            case 27: name = "resize_and_overwrite"; want.assign(cnt, (char32_t)narrow); own = 1; break;
            case 28: name = "= view"; bk = backing(val); want = val; own = 0; break;
            case 29: name = "= independent(view)"; bk = backing(val); want = val; own = 1; break;
            case 30: name = "write every character"; for(auto& q : want) q = w; break;
            }
            bool arm = faultiness && draw(2);
            u64 k = 1 + (arm ? skewed(3) : 0);
            bool many = draw(2);
            ev("%s s%d=%s val=%s w=U+%04X cnt=%zu idx=%zu%s", name, a, show(old).c_str(), show(val).c_str(), (unsigned)w, cnt, idx, arm ? " [alloc fault]" : "");
            bool threw = false, iter_threw = false;
            std::unique_ptr<SC> fresh;
            const bool was_owned = x.s->has_ownership();
            Str taken;
            std::vector<pu::codepoint> cpsv;
            for(char32_t q : val) cpsv.push_back(cp(q));
            long throw_at = op == 8 && faultiness && draw(3) == 2 && e.size() ? (long)draw(e.size()) : -1;
            {
                Sut sut;
                Str tmp = e;
                SC& s = *x.s;
                if(arm) arm_oom(many ? Oom::persistent : Oom::once, k);
                try
                {
                    switch(op)
                    {
                    case 0: s.assign(bk); break;
                    case 1: s.assign(papilio::independent, bk); break;
                    case 2: s.assign(std::move(tmp)); break;
                    case 3: s.assign(papilio::independent, View(s)); break;
                    case 4: s.assign(cnt, narrow); break;
                    case 5: s.assign(cnt, cp(w)); break;
                    case 6: s.assign_range(tmp); break;
                    case 7: s.assign_range(cpsv); break;
                    case 8: s.assign_range(ThrowRange{{e.data(), throw_at}, {e.data() + e.size(), -1}}); break;
                    case 9: s.push_back(narrow); break;
                    case 10: s.push_back(cp(w)); break;
                    case 11: s[idx] = cp(w); break;
                    case 12:
                    {
                        auto it = s.begin();
                        for(std::size_t i = 0; i < idx; ++i) ++it;
                        *it = cp(w);
                        break;
                    }
                    case 13: s.index(papilio::reverse_index, idx) = cp(w); break;
                    case 14: s.clear(); break;
                    case 15: s.obtain_ownership(); break;
                    case 16:
                    {
                        const Str& r = s.str();
                        if(r != enc<C>(old)) fail("value", "str() returned something else");
                        break;
                    }
                    case 17: taken = std::move(s).str(); break;
                    case 18:
                    {
                        const C* z = s.c_str();
                        if(View(z, s.size()) != enc<C>(old) || z[s.size()] != C(0)) fail("value", "c_str() is not the value");
                        break;
                    }
                    case 19:
                    {
                        SC c2(std::as_const(s));
                        if(View(c2) != enc<C>(old)) fail("value", "the copy holds another value");
                        if(c2.has_ownership() || (c2.data() != s.data() && s.size())) fail("ownership", "copying did not just refer to the original");
                        c2.push_back(cp(w));
                        if(View(c2) != enc<C>(old + w)) fail("value", "writing to the copy");
                        break;
                    }
                    case 20: *y.s = std::as_const(s); break;
                    case 21: *y.s = std::move(s); break;
                    case 22: s.swap(*y.s); break;
                    case 23: fresh = std::make_unique<SC>(std::move(s)); break;
                    case 24:
                        if(draw(3) == 0) fresh = std::make_unique<SC>(papilio::independent, e);
                        else if(draw(2)) fresh = std::make_unique<SC>(papilio::independent, e.data(), e.size());
                        else fresh = std::make_unique<SC>(papilio::independent, SC(e));
                        break;
                    case 25: fresh = std::make_unique<SC>(bk); break;
                    case 26: fresh = std::make_unique<SC>(cnt, cp(w)); break;
                    case 27: s.resize_and_overwrite(cnt + 3, [&](C* p, std::size_t n) { std::fill_n(p, cnt, narrow); (void)n; return cnt; }); break;
                    case 28: s = bk; break;
                    case 29: s = papilio::independent(bk); break;
                    case 30:
                        for(auto it = s.begin(); it != s.end(); ++it) *it = cp(w);
                        break;
                    }
                }
                catch(const std::bad_alloc&)
                {
                    threw = true;
                }
                catch(const IterThrow&)
                {
                    threw = iter_threw = true;
                }
                disarm_oom();
            }
            ev("  -> %s", iter_threw ? "IterThrow" : threw ? "bad_alloc" : "ok");
            if(!threw)
            {
                if(arm && oom_fired()) fail("swallowed-oom", "%s: an allocation failed but the operation reported success", name);
                if(throw_at >= 0) fail("swallowed", "%s: the iterator threw but the operation reported success", name);
                if(fresh)
                {
                    Sut g;
                    if(op == 23) y.s = std::move(fresh);
                    else x.s = std::move(fresh);
                }
                if(op == 17 && taken != enc<C>(old)) fail("value", "str() && returned something else");
                x.v = want;
                y.v = wantb;
                if(op == 17 || op == 21 || op == 23)
                {
                    // moved-from: valid but unspecified; make it known again
                    Sut g;
                    (void)x.s->size();
                    x.s->assign(Str());
                    x.v.clear();
                }
                if(op == 20 && !y.s->has_ownership() && was_owned)
                {
                    Sut g;
                    y.s->obtain_ownership();
                }
                if(own >= 0 && x.s->has_ownership() != (own == 1)) fail("ownership", "%s: has_ownership()=%d", name, (int)x.s->has_ownership());
                if(own == 0 && x.s->size() && x.s->data() != bk.data()) fail("ownership", "%s: does not refer to the given string", name);
                if((op == 1 || op == 29) && x.s->size() && x.s->data() == bk.data()) fail("ownership", "%s: an independent copy refers to the given string", name);
            }
            else
            {
                probe(iter_threw ? "assignment abandoned by a throwing iterator" : "operation failed for lack of memory");
                if(op == 27 || op == 30)
                {
                    // several steps: characters already written stay written
                    Cps now;
                    for(auto q : std::as_const(*x.s)) now += (char32_t)q;
                    if(op == 30)
                    {
                        if(now.size() != old.size()) fail("not-strong", "%s failed and left %s", name, show(now).c_str());
                        for(std::size_t i = 0; i < now.size(); ++i)
                            if(now[i] != old[i] && now[i] != w) fail("not-strong", "%s failed and left %s", name, show(now).c_str());
                        x.v = now;
                    }
                }
            }
            verify(name, x);
            verify(name, y);
        }
        Sut g;
        sl[0].s.reset();
        sl[1].s.reset();
    }
};

void run()
{
    switch(draw(5))
    {
    case 0: Machine<char>{}.go(); break;
    case 1: Machine<char8_t>{}.go(); break;
    case 2: Machine<char16_t>{}.go(); break;
    case 3: Machine<char32_t>{}.go(); break;
    case 4: Machine<wchar_t>{}.go(); break;
    }
}
} // namespace

const Property sim::property = {
    "C10", run, 300000, 4000000, 8000000,
    "random operation histories over two string containers of every character type, values mixing 1- to 4-byte characters and U+0000, with the k-th allocation (or the k-th and all later ones) failing inside an operation, and throwing source iterators; value, iteration, indexing, ownership and the referenced strings are compared with a model after every operation",
    "papilio/utf/string.hpp, codepoint.hpp, stralgo.hpp, src/utf/*",
    "operator new, source iterators",
};
