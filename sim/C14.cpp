// C14: stream adaptors over iterators carry every character once and stop on failure.
// SIM: src=none
#include "sim.hpp"
#include "streams.hpp"
#include <istream>
#include <ostream>
#include <papilio/utility.hpp>
#include <sstream>

using namespace sim;

namespace
{
template <typename C>
std::string show(const std::basic_string<C>& s)
{
    std::string r;
    for(C c : s)
    {
        char b[16];
        auto u = (unsigned long)(std::make_unsigned_t<std::conditional_t<std::is_same_v<C, wchar_t>, int, C>>)c;
        if(u >= 0x20 && u < 0x7f) r += (char)u;
        else std::snprintf(b, sizeof b, "\\x%lx", u), r += b;
    }
    return r;
}

struct IterThrow
{
    u64 id;
};

// ---- writing ----------------------------------------------------------------
template <typename C>
struct Sink
{
    std::basic_string<C> text;
    long at = -1;
    bool once = true;
    bool in_step = false; // throws when stepping over the character instead
    u64 fired = 0;
    std::size_t size_at_fault = 0;
};
template <typename C>
struct OutIt
{
    using iterator_category = std::output_iterator_tag;
    using value_type = void;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = void;
    Sink<C>* s = nullptr;
    std::size_t pos = 0;
    void boom()
    {
        if(!s->fired++) s->size_at_fault = s->text.size();
        if(s->once) s->at = -1;
        {
            Harness h;
            fault("throwing-iterator");
            ev("  ! iterator throws at character %zu", s->text.size());
        }
        throw IterThrow{1};
    }
    OutIt& operator*() { return *this; }
    OutIt& operator++() { return *this; }
    OutIt operator++(int) { return *this; }
    OutIt& operator=(C c)
    {
        if(s->at >= 0 && (long)s->text.size() >= s->at) boom();
        Harness h;
        if(pos != s->text.size()) flag("stale-iterator", "a character was written through an outdated copy of the iterator");
        s->text += c;
        ++pos;
        return *this;
    }
};

template <typename C>
void out_op(std::basic_ostream<C>& os, u64 what, u64 arg, const std::basic_string<C>& text)
{
    switch(what)
    {
    case 0: os.put(text.empty() ? C('p') : text[0]); break;
    case 1: os.write(text.data(), (std::streamsize)text.size()); break;
    case 2: os << text; break;
    case 3: os << (long)arg * 977; break;
    case 4:
        os.width((std::streamsize)(arg % 20));
        os.fill(C('.'));
        os << text;
        break;
    case 5: os << std::hex << std::showbase << (int)arg << std::dec; break;
    case 6: os.flush(); break;
    case 7: os << std::boolalpha << (arg % 2 == 0) << (double)arg / 4; break;
    case 8: os.seekp(0); break;
    case 9: os << std::endl; break;
    case 10: os << C('c') << text.c_str(); break;
    default:
    {
        std::basic_istringstream<C> in(text);
        if(!text.empty()) os << in.rdbuf();
        break;
    }
    }
}
constexpr u64 out_ops = 12;

// outcome of an operation on a stream
template <typename F>
int guarded(F&& fn)
{
    try
    {
        fn();
        return 0;
    }
    catch(const IterThrow&)
    {
        return 1;
    }
    catch(const std::ios_base::failure&)
    {
        return 2;
    }
}
static const char* what_name[] = {"returned", "threw the iterator's exception", "threw ios_base::failure"};

template <typename C>
std::basic_string<C> any_text(u64 n)
{
    std::basic_string<C> t;
    for(u64 k = draw(n + 1); k--;)
    {
        u64 r = draw(20);
        t += r == 19 ? C(0) : r == 18 ? C(-1) : r == 17 ? C(0x80) : r == 16 ? C('\n') : C('a' + draw(26));
    }
    if(sizeof(C) > 1)
        for(C& c : t)
            if(c == C(-1)) c = C(0xFF); // the end-of-file value is no wide character
    return t;
}

template <typename C, bool Direct>
void writing()
{
    Sink<C> sink;
    using It = OutIt<C>;
    struct Raw : papilio::basic_iterbuf<C, It>
    {
        using papilio::basic_iterbuf<C, It>::basic_iterbuf;
        using papilio::basic_iterbuf<C, It>::overflow;
    } raw(It{&sink});
    std::basic_ostream<C> plain(&raw);
    papilio::basic_oiterstream<C, It> wrapped(It{&sink});
    std::basic_ostream<C>& os = Direct ? plain : static_cast<std::basic_ostream<C>&>(wrapped);
    auto base = [&] { return Direct ? raw.base() : wrapped.base(); };
    std::basic_ostringstream<C> ref; // the same operations on a string stream
    std::ios_base::iostate mask = chance(1, 3) ? std::ios_base::badbit : std::ios_base::goodbit;
    os.exceptions(mask);
    if(!os.good()) fail("wrong-state", "a fresh stream is in state %d", (int)os.rdstate());
    for(u64 n = range(1, 12), q = 0; q < n; ++q)
    {
        op_begin();
        if(chance(1, 30))
        { // a derived buffer may ask for room without having a character to write
            std::size_t n0 = sink.text.size();
            auto r = raw.overflow(std::char_traits<C>::eof());
            if(sink.text.size() != n0) fail("eof-written", "the end-of-file marker was written as a character");
            if(r == std::char_traits<C>::eof()) fail("spurious", "overflow without a character reported a failure");
        }
        u64 what = draw(out_ops), arg = draw(1000);
        auto text = any_text<C>(12);
        sink.at = chance(1, 3) ? (long)(sink.text.size() + draw(10)) : -1;
        sink.once = draw(2);
        sink.fired = 0;
        std::size_t before = sink.text.size();
        std::size_t rbefore = ref.str().size();
        std::ios_base::iostate state0 = os.rdstate();
        if(what == 8 && Direct == false) {}
        out_op<C>(ref, what == 8 ? 6 : what, arg, text);
        auto want = ref.str().substr(rbefore);
        int o;
        {
            Sut s;
            o = guarded([&] { out_op<C>(os, what, arg, text); });
        }
        auto got = sink.text.substr(before);
        bool last = sink.fired;
        sink.at = -1;
        ev("op %llu(%llu) \"%s\" -> %s state=%d wrote %zu of %zu", (unsigned long long)what, (unsigned long long)arg, esc(show(text), 40).c_str(), what_name[o], (int)os.rdstate(), got.size(), want.size());
        mark_state(what * 256 + (u64)os.rdstate() * 16 + std::min<u64>(got.size(), 15));
        if(state0 != std::ios_base::goodbit)
        {
            if(!got.empty()) fail("written-to-failed-stream", "an operation wrote \"%s\" to a failed stream", show(got).c_str());
        }
        else if(last)
        {
            nontrivial();
            if(got.size() > sink.size_at_fault - before) fail("written-after-failure", "the iterator threw after %zu characters but %zu were written", sink.size_at_fault - before, got.size());
            if(want.compare(0, got.size(), got) != 0) fail("wrong-text", "wrote \"%s\", not the beginning of \"%s\"", show(got).c_str(), show(want).c_str());
            if(got.size() >= want.size()) fail("wrong-text", "the iterator threw although everything had been written");
            if(!os.fail()) fail("unreported", "the iterator threw but the stream is in state %d", (int)os.rdstate());
            if(what != 11 && mask && o == 0) fail("unreported", "the operation returned although the stream was asked to throw");
            if(!mask && o != 0) fail("spurious", "the operation %s", what_name[o]);
        }
        else if(what == 8)
        {
            if(!got.empty()) fail("wrong-text", "seeking wrote something");
            os.clear();
        }
        else
        {
            if(got != want) fail("wrong-text", "wrote \"%s\" instead of \"%s\"", show(got).c_str(), show(want).c_str());
            if(!os.good() || o != 0) fail("wrong-state", "state %d although nothing failed", (int)os.rdstate());
        }
        if(base().pos != sink.text.size()) fail("wrong-position", "base() is at %zu of %zu", base().pos, sink.text.size());
        os.width(0);
        os.flags(ref.flags());
        if(draw(4)) os.clear();
    }
}

// ---- reading ------------------------------------------------------------------
template <typename C>
struct Source
{
    std::basic_string<C> data;
    long at = -1;
    bool in_step = false;
    u64 fired = 0;
    std::size_t reach = 0; // characters stepped over
};
template <typename C>
struct InIt
{
    using iterator_concept = std::input_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    using value_type = C;
    using difference_type = std::ptrdiff_t;
    using pointer = void;
    using reference = C;
    Source<C>* s = nullptr;
    std::size_t pos = 0;
    void boom() const
    {
        s->at = -1;
        ++s->fired;
        {
            Harness h;
            fault("throwing-iterator");
            ev("  ! input iterator throws at character %zu", pos);
        }
        throw IterThrow{1};
    }
    C operator*() const
    {
        if(pos >= s->data.size())
        {
            flag("read-past-end", "the iterator was read beyond the characters asked for");
            return C('?');
        }
        if(pos < s->reach) flag("read-twice", "a character was read from the iterator again after it had been stepped over");
        if(s->at >= 0 && !s->in_step && (long)pos >= s->at) boom();
        return s->data[pos];
    }
    InIt& operator++()
    {
        if(s->at >= 0 && s->in_step && (long)pos >= s->at) boom();
        ++pos;
        s->reach = std::max(s->reach, pos);
        return *this;
    }
    InIt operator++(int)
    {
        InIt t = *this;
        ++*this;
        return t;
    }
};

template <typename C>
std::basic_string<C> in_op(std::basic_istream<C>& is, u64 what, u64 arg, std::size_t& count)
{
    using S = std::basic_string<C>;
    S r;
    count = 0;
    switch(what)
    {
    case 0:
    {
        auto c = is.get();
        if(is.good()) r += (C)c, count = 1;
        break;
    }
    case 1:
    {
        auto c = is.peek();
        if(is.good()) r += (C)c;
        break;
    }
    case 2:
    {
        S b(arg, C('#'));
        is.read(b.data(), (std::streamsize)arg);
        if(is.good()) r = b, count = arg;
        break;
    }
    case 3:
    {
        is >> r;
        count = r.size();
        break;
    }
    case 4:
    {
        std::getline(is, r, C('\n'));
        count = r.size() + 1;
        break;
    }
    case 5:
    {
        auto c = is.get();
        is.unget();
        auto d = is.get();
        if(is.good())
        {
            if(c != d) fail("wrong-text", "unget gave a different character");
            r += (C)c;
            count = 1;
        }
        break;
    }
    case 6:
    {
        C c;
        is.get(c);
        is.putback(c);
        c = C('#');
        is.get(c);
        if(is.good()) r += c, count = 1;
        break;
    }
    default:
        is.ignore((std::streamsize)arg);
        count = arg;
        break;
    }
    return r;
}

template <typename C>
void reading()
{
    using S = std::basic_string<C>;
    Source<C> src;
    for(u64 n = range(2, 40), k = 0; k < n; ++k)
    {
        u64 r = draw(12);
        src.data += r == 11 ? C('\n') : r == 10 ? C(' ') : r == 9 ? (sizeof(C) == 1 ? C(0xFF) : C(0x4E2D)) : r == 8 ? C(0) : C('a' + draw(26));
    }
    // enough for the last word or line to end
    for(int k = 0; k < 300; ++k) src.data += C("q\n \n"[k % 4]);
    papilio::basic_iterbuf<C, InIt<C>> buf(InIt<C>{&src});
    std::basic_istream<C> is(&buf);
    std::basic_istringstream<C> ref(src.data);
    std::ios_base::iostate mask = chance(1, 3) ? std::ios_base::badbit : std::ios_base::goodbit;
    is.exceptions(mask);
    for(u64 n = range(1, 12), q = 0; q < n; ++q)
    {
        op_begin();
        u64 what = draw(8), arg = draw(10);
        src.at = chance(1, 4) ? (long)(buf.base().pos + draw(8)) : -1;
        src.in_step = draw(2);
        src.fired = 0;
        S got, want;
        std::size_t count = 0, rcount = 0;
        int o;
        {
            Sut s;
            o = guarded([&] { S r = in_op<C>(is, what, arg, count); Harness h; got.assign(r.data(), r.size()); r = S(); });
        }
        src.at = -1;
        ev("read op %llu(%llu) -> %s state=%d \"%s\"", (unsigned long long)what, (unsigned long long)arg, what_name[o], (int)is.rdstate(), esc(show(got), 40).c_str());
        mark_state(4096 + what * 64 + (u64)is.rdstate() * 4 + std::min<u64>(got.size(), 3));
        if(src.fired)
        {
            nontrivial();
            if(!is.bad()) fail("unreported", "the input iterator threw but the stream is in state %d", (int)is.rdstate());
            if(mask && o == 0) fail("unreported", "the operation returned although the stream was asked to throw");
            is.clear();
            // the rest must follow without loss or repetition: find the place and compare on
            std::size_t at = buf.base().pos - (std::size_t)buf.in_avail();
            ref.clear();
            ref.seekg((std::streamoff)at);
            if(buf.base().pos != src.reach) fail("wrong-position", "base() is at %zu, the furthest character read is %zu", buf.base().pos, src.reach);
            S rest(3, C('#')), rrest(3, C('#'));
            guarded([&] { is.read(rest.data(), 3); });
            ref.read(rrest.data(), 3);
            if(rest != rrest) fail("wrong-text", "after the iterator had thrown the stream went on with \"%s\" instead of \"%s\"", show(rest).c_str(), show(rrest).c_str());
            continue;
        }
        want = in_op<C>(ref, what, arg, rcount);
        if(o != 0) fail("spurious", "the operation %s", what_name[o]);
        if(is.rdstate() != ref.rdstate()) fail("different-state", "state %d, a string stream is in state %d", (int)is.rdstate(), (int)ref.rdstate());
        if(got != want) fail("wrong-text", "read \"%s\", a string stream gives \"%s\"", show(got).c_str(), show(want).c_str());
        is.clear();
        ref.clear();
        if((long)buf.base().pos - (long)buf.in_avail() != (long)ref.tellg()) fail("wrong-position", "the stream is at %ld, a string stream at %ld", (long)buf.base().pos - (long)buf.in_avail(), (long)ref.tellg());
    }
}

void run()
{
    switch(draw(6))
    {
    case 0: return writing<char, false>();
    case 1: return writing<char, true>();
    case 2: return writing<wchar_t, false>();
    case 3: return reading<char>();
    case 4: return reading<wchar_t>();
    default: return writing<char, false>();
    }
}
} // namespace

const Property sim::property = {
    "C14", run, 400000, 8000000, 60000000,
    "1-12 random stream operations (put, write, insertion with and without width, numbers, stream buffers, flush, seek; get, peek, unget, putback, read, ignore, words, lines) over an output or input iterator that throws at a random character; compared with the same operations on a string stream; non-trivial: the iterator threw",
    "basic_iterbuf and basic_oiterstream, libstdc++ streams",
    "the iterators below the stream"};
