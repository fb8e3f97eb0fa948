// C13: reading a string_container obeys the rules of formatted extraction.
// SIM: src=utf/string.cpp
#include "sim.hpp"
#include "streams.hpp"
#include <istream>
#include <locale>
#include <papilio/utf/string.hpp>

using namespace sim;

namespace
{
template <typename C>
struct Spaces : std::ctype<C>
{};
// a character classification in which 'x' is white space too
template <>
struct Spaces<char> : std::ctype<char>
{
    static const mask* table()
    {
        static std::vector<mask> t(classic_table(), classic_table() + table_size);
        t['x'] |= space;
        return t.data();
    }
    Spaces() : std::ctype<char>(table()) {}
};
template <>
struct Spaces<wchar_t> : std::ctype<wchar_t>
{
    bool do_is(mask m, char_type c) const override
    {
        if(c == L'x' && (m & space)) return true;
        return std::ctype<wchar_t>::do_is(m, c);
    }
    const char_type* do_scan_is(mask m, const char_type* b, const char_type* e) const override
    {
        while(b != e && !do_is(m, *b)) ++b;
        return b;
    }
    const char_type* do_scan_not(mask m, const char_type* b, const char_type* e) const override
    {
        while(b != e && do_is(m, *b)) ++b;
        return b;
    }
};

struct Outcome
{
    int what = 0; // 0 returned, 1 buffer's exception, 2 ios failure, 3 bad_alloc, 4 other
};
static const char* what_name[] = {"returned", "threw the buffer's exception", "threw ios_base::failure", "threw bad_alloc", "threw"};

template <typename F>
int guarded(F&& fn)
{
    try
    {
        fn();
        return 0;
    }
    catch(const BufThrow&)
    {
        return 1;
    }
    catch(const std::bad_alloc&)
    {
        return 3;
    }
    catch(const std::ios_base::failure&)
    {
        return 2;
    }
    catch(const std::exception&)
    {
        return 4;
    }
}

template <typename C>
std::string show(const std::basic_string<C>& s)
{
    std::string r;
    for(C c : s)
    {
        char b[16];
        auto u = (unsigned long)(std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, C>>)c;
        if(u >= 0x20 && u < 0x7f) r += (char)u;
        else std::snprintf(b, sizeof b, "\\x%lx", u), r += b;
    }
    return r;
}

template <typename C>
void run_as()
{
    using S = std::basic_string<C>;
    using Box = papilio::utf::basic_string_container<C>;
    // the input
    S data;
    for(u64 words = draw(6), k = 0; k < words; ++k)
    {
        static const char* const ws[] = {" ", "\n", "\t", "  ", " \v", "\r\n"};
        if(k || draw(2))
            for(const char* c = pick(ws); *c; ++c) data += (C)*c;
        u64 len = chance(1, 4) ? range(16, 80) : draw(8);
        for(u64 j = 0; j < len; ++j)
        {
            u64 r = draw(12);
            if(r == 10 && sizeof(C) == 1) data += (C)0xC3, data += (C)0xA9;
            else if(r == 10) data += (C)0x4E2D;
            else if(r == 11) data += C(0);
            else if(r == 9) data += C('x');
            else data += C('a' + draw(26));
        }
    }
    if(draw(2)) data += C('\n');
    FaultIn<C> buf, rbuf;
    buf.data = rbuf.data = data;
    for(u64 k = draw(4); k--;) buf.portions.push_back(range(1, 9));
    if(draw(2)) buf.portions = {1000};
    rbuf.portions = buf.portions;
    std::basic_istream<C> is(&buf), ref(&rbuf);
    if(chance(1, 6))
    {
        std::locale l(std::locale::classic(), new Spaces<C>);
        is.imbue(l);
        ref.imbue(l);
        probe("custom-whitespace");
    }
    std::ios_base::iostate mask = std::ios_base::goodbit;
    static const std::ios_base::iostate masks[] = {std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit, std::ios_base::badbit | std::ios_base::failbit};
    mask = pick(masks);
    is.exceptions(mask);
    ref.exceptions(mask);
    ev("input \"%s\" mask=%d", esc(show(data), 200).c_str(), (int)mask);
    mix_bytes(data.data(), data.size() * sizeof(C));

    const S outside = S(24, C('o')) + C('!'); // a string the container may refer to
    S outside_copy = outside;
    Box box;
    S value;
    for(u64 n = range(1, 8), q = 0; q < n; ++q)
    {
        op_begin();
        // what the container holds before
        switch(draw(5))
        {
        case 1:
            box = Box(outside_copy); // refers to it
            value = outside;
            break;
        case 2:
            value = S(draw(40), C('k'));
            box = Box(papilio::independent, value);
            break;
        case 3:
            box = Box();
            value.clear();
            break;
        default: break;
        }
        // stream settings
        if(chance(1, 4))
        {
            long w = (long)draw(6);
            is.width(w);
            ref.width(w);
        }
        bool skip = !chance(1, 5);
        if(skip) is.setf(std::ios_base::skipws), ref.setf(std::ios_base::skipws);
        else is.unsetf(std::ios_base::skipws), ref.unsetf(std::ios_base::skipws);
        // faults
        long at = chance(1, 3) ? (long)(buf.pos + draw(20)) : -1;
        buf.throw_at = rbuf.throw_at = at;
        buf.fired = rbuf.fired = 0;
        bool oom = chance(1, 4);
        Oom mode = draw(2) ? Oom::persistent : Oom::once;
        u64 k = draw(4);
        // reference: extraction of a std::basic_string, without memory trouble
        S rs = S(3, C('?'));
        int rw = guarded([&] { ref >> rs; });
        int gw;
        u64 oomed = 0;
        {
            Sut s;
            if(oom) arm_oom(mode, k);
            gw = guarded([&] { is >> box; });
            oomed = oom_fired();
            disarm_oom();
        }
        S got(box.to_string_view());
        bool fault_hit = oomed || buf.fired;
        if(fault_hit) nontrivial();
        ev(">> throw_at=%ld oom=%llu width -> %s state=%d value \"%s\"; reference %s state=%d \"%s\"", at, (unsigned long long)oomed, what_name[gw], (int)is.rdstate(), esc(show(got), 60).c_str(), what_name[rw], (int)ref.rdstate(), esc(show(rs), 60).c_str());
        mark_state(((u64)rw * 8 + (u64)ref.rdstate()) * 64 + (u64)mask * 8 + !!oomed * 4 + std::min<u64>(got.size(), 3));
        if(outside_copy != outside) fail("outside-changed", "a string the container referred to was modified");
        if(gw == 4) fail("wrong-exception", "extraction threw an unexpected exception");
        if(oomed)
        {
            // libstdc++ reports a failed allocation as badbit (or the exception)
            if(is.good() && got != rs) fail("unreported", "an allocation failed, the stream is good but the container holds \"%s\" instead of \"%s\"", show(got).c_str(), show(rs).c_str());
            if(!got.empty() && got != value && got != rs) fail("foreign-value", "after a failed extraction the container holds \"%s\"", show(got).c_str());
            is.width(0);
            ref.width(0);
            // the two streams may now be at different places: start over from the same position
            std::size_t pos = std::max(buf.consumed(), rbuf.consumed());
            for(auto* b : {&buf, &rbuf})
            {
                b->data.erase(0, pos);
                b->pos = b->start = b->next = 0;
                b->reset_area();
            }
        }
        else
        {
            if(gw != rw) fail("different-outcome", "extraction %s, of a std::string %s", what_name[gw], what_name[rw]);
            if(is.rdstate() != ref.rdstate()) fail("different-state", "stream state %d after the extraction, %d when a std::string is extracted", (int)is.rdstate(), (int)ref.rdstate());
            if(buf.consumed() != rbuf.consumed()) fail("different-position", "%zu characters consumed, %zu when a std::string is extracted", buf.consumed(), rbuf.consumed());
            if(is.width() != ref.width()) fail("different-width", "the field width is %ld afterwards, not %ld", (long)is.width(), (long)ref.width());
            bool ok = !(ref.rdstate() & (std::ios_base::badbit | std::ios_base::failbit));
            if(ok)
            {
                if(rw != 0) // eofbit in the exception mask: the text was read, the exception reports the end
                {
                    if(got != rs && got != value && !got.empty()) fail("foreign-value", "the container holds \"%s\"", show(got).c_str());
                }
                else if(got != rs) fail("wrong-value", "the container holds \"%s\", a std::string would hold \"%s\"", show(got).c_str(), show(rs).c_str());
            }
            else if(!got.empty() && got != value) fail("foreign-value", "after a failed extraction the container holds \"%s\"; it held \"%s\"", show(got).c_str(), show(value).c_str());
        }
        value = got;
        // usable afterwards
        Box copy = box;
        copy.push_back(U'z');
        if(S(copy.to_string_view()) != got + C('z') || S(box.to_string_view()) != got) fail("unusable", "the container cannot be used after the extraction");
        is.exceptions(std::ios_base::goodbit);
        ref.exceptions(std::ios_base::goodbit);
        if(draw(2))
        {
            is.clear();
            ref.clear();
        }
        else
        { // keep eof and fail as they are, but the same in both
            is.clear(ref.rdstate());
        }
        try
        {
            is.exceptions(mask);
            ref.exceptions(mask);
        }
        catch(const std::ios_base::failure&)
        {
            is.exceptions(std::ios_base::goodbit);
            ref.exceptions(std::ios_base::goodbit);
            is.clear();
            ref.clear();
            is.exceptions(mask);
            ref.exceptions(mask);
        }
    }
}

void run()
{
    if(chance(1, 3)) run_as<wchar_t>();
    else run_as<char>();
}
} // namespace

const Property sim::property = {
    "C13", run, 600000, 6000000, 60000000,
    "random inputs of 0-6 words in portions of 1-9 characters, 1-8 extractions into containers that are empty, own their text or refer to one; widths, skipws, a custom white space, exception masks; the stream buffer throws at a character or an allocation fails; compared with the extraction of a std::basic_string from an identical stream; non-trivial: a fault fired",
    "src/utf/string.cpp, include/papilio/utf/string.hpp, libstdc++ istream",
    "the stream buffer below the istream"};
