// C03: printing to a std::ostream delivers the text or shows the failure.
// SIM: parts=2
#include "fmtwork.hpp"
#include "streams.hpp"
#include <papilio/print.hpp>
#include <ios>
#include <ostream>

using namespace sim;
using namespace fw;

namespace c03
{
enum How : int
{
    h_print,
    h_println,
    h_newline,
    h_container,
    h_count
};
static const char* how_name[] = {"print", "println", "println(os)", "os << string_container (string_ref, code points, joiner)"};

// compiled in the other part
void print_call(int how, std::ostream& os, std::string_view fmt, Pack<char>& p);

#if SIM_PART == 1
void print_call(int how, std::ostream& os, std::string_view fmt, Pack<char>& p)
{
    p.apply([&](auto&&... a)
            {
        if(how == h_print) papilio::print(os, fmt, std::forward<decltype(a)>(a)...);
        else papilio::println(os, fmt, std::forward<decltype(a)>(a)...); });
}
#else

struct Punct : std::numpunct<char>
{
    std::string do_truename() const override { return "ja"; }
    std::string do_falsename() const override { return "nein"; }
};

enum Form : int // what is inserted
{
    f_container,
    f_ref,
    f_codepoints,
    f_joiner,
    f_count
};
template <typename C>
void container_call(std::basic_ostream<C>& os, const std::basic_string<C>& text, int form)
{
    papilio::utf::basic_string_container<C> c(text);
    switch(form)
    {
    case f_ref: os << papilio::utf::basic_string_ref<C>(c); break;
    case f_codepoints:
        for(papilio::utf::codepoint cp : c) os << cp;
        break;
    case f_joiner:
    { // the text cut at its last character's occurrences
        std::basic_string<C> sep = text.empty() ? text : text.substr(text.size() - 1);
        std::vector<std::basic_string<C>> parts;
        std::size_t from = 0;
        for(std::size_t k = 0; k < text.size(); ++k)
            if(text[k] == sep[0]) parts.push_back(text.substr(from, k - from)), from = k + 1;
        parts.push_back(text.substr(from));
        os << papilio::joiner<const std::vector<std::basic_string<C>>, C>(parts, sep);
        break;
    }
    default: os << c;
    }
}

struct Outcome
{
    enum What
    {
        normal,
        buf,
        failure,
        bad_alloc,
        user,
        other
    } what = normal;
    u64 id = 0;
    std::string name;
};
static const char* what_name[] = {"returned", "threw the buffer's exception", "threw ios_base::failure", "threw bad_alloc", "threw user exception", "threw"};

template <typename F>
Outcome guarded(F&& fn)
{
    Outcome o;
    try
    {
        fn();
    }
    catch(const BufThrow& e)
    {
        o.what = Outcome::buf;
        o.id = e.id;
    }
    catch(const UserThrow& e)
    {
        o.what = Outcome::user;
        o.id = e.id;
    }
    catch(const std::bad_alloc&)
    {
        o.what = Outcome::bad_alloc;
    }
    catch(const std::ios_base::failure&)
    {
        o.what = Outcome::failure;
    }
    catch(const std::exception& e)
    {
        o.what = Outcome::other;
        Harness h;
        o.name = e.what();
    }
    return o;
}

template <typename C>
void run_as()
{
    Pack<char> p;
    Program g;
    constexpr bool narrow = std::is_same_v<C, char>;
    if(narrow) g = program(p, 5);
    else g.text = Pack<char>::uni(12), g.fmt = "-";
    bool loc = narrow && chance(1, 4);
    if(loc)
    { // the stream's locale decides
        g.fmt += "{14:L}";
        g.text += p.b ? "ja" : "nein";
    }
    const std::string print = p.print();

    using Buf = FaultOut<C>;
    static const std::size_t sizes[] = {0, 0, 1, 2, 3, 7, 16, 64};
    Buf buf(pick(sizes), draw(2));
    std::basic_ostream<C> os(&buf);
    if(loc) os.imbue(std::locale(std::locale::classic(), new Punct));
    bool unit = chance(1, 5);
    if(unit) os.setf(std::ios_base::unitbuf);
    std::ios_base::iostate mask = std::ios_base::goodbit;
    if(chance(1, 3)) mask |= std::ios_base::badbit;
    if(chance(1, 4)) mask |= std::ios_base::failbit;
    // libstdc++ flushes a unitbuf stream from a destructor that must not throw
    if(unit) mask &= ~std::ios_base::badbit;
    os.exceptions(mask);
    ev("fmt \"%s\" buffer=%zu bulk=%d unitbuf=%d exceptions=%d", esc(g.fmt, 300).c_str(), buf.area.size(), (int)buf.bulk, (int)unit, (int)mask);
    mix_bytes(g.text.data(), g.text.size());

    for(u64 calls = range(1, 6), q = 0; q < calls; ++q)
    {
        op_begin();
        int how = narrow ? (int)draw(h_count) : (int)h_container;
        const int form = (int)draw(f_count);
        std::string expect = how == h_newline ? "\n" : how == h_println ? g.text + "\n" : g.text;
        std::basic_string<C> T = W<C>(expect);
        // fault plan
        buf.plan_none();
        std::basic_string<C> before = buf.all();
        u64 plan = draw(9);
        bool state_bad = false, user = false, oom = false;
        Oom mode = Oom::once;
        u64 k = 0;
        buf.id = q + 1;
        if(plan == 1 || plan == 2 || plan == 3)
        {
            buf.act = plan == 3 && !unit ? Buf::raise : Buf::refuse;
            buf.once = draw(2);
            buf.at = buf.device.size() + draw(T.size() + 2);
        }
        else if(plan == 4)
        {
            buf.sync_at = (long)draw(T.size() + 2);
            buf.sync_raise = !unit && draw(2);
        }
        else if(plan == 5)
        {
            static const std::ios_base::iostate st[] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit, std::ios_base::badbit | std::ios_base::failbit};
            os.exceptions(std::ios_base::goodbit);
            os.setstate(pick(st));
            state_bad = true;
            fault("stream-already-failed");
        }
        else if(plan == 6 && how <= h_println)
        {
            user = true;
            k = draw(40);
        }
        else if(plan == 7)
        {
            oom = true;
            mode = draw(2) ? Oom::persistent : Oom::once;
            k = draw(30);
        }
        std::ios_base::iostate before_state = os.rdstate();
        std::ios_base::iostate m = os.exceptions();
        Points::reset();
        if(user) Points::arm(k, k_plain);
        Outcome o;
        u64 oomed = 0;
        {
            Sut s;
            if(oom) arm_oom(mode, k);
            o = guarded([&]
                        {
                if constexpr(narrow)
                {
                    if(how <= h_println) return print_call(how, os, g.fmt, p);
                    if(how == h_newline) return papilio::println(os);
                }
                container_call<C>(os, T, form); });
            oomed = oom_fired();
            disarm_oom();
        }
        Points::armed = false;
        bool user_fired = Points::fired != 0;
        std::basic_string<C> after = buf.all();
        if(after.compare(0, before.size(), before) != 0) fail("lost-text", "text printed earlier disappeared");
        std::basic_string<C> got = after.substr(before.size());
        ev("%s plan=%llu -> %s state=%d delivered %zu of %zu", how_name[how], (unsigned long long)plan, what_name[o.what], (int)os.rdstate(), got.size(), T.size());
        mark_state(((u64)how * 16 + plan) * 64 + std::min<u64>(got.size(), 15) * 4 + (u64)mask);
        auto ctx = [&] { return std::string(how_name[how]) + " of \"" + g.fmt + "\""; };
        if(p.print() != print) fail("argument-changed", "%s changed its arguments", ctx().c_str());
        if(o.what == Outcome::other) fail("wrong-exception", "%s threw \"%s\"", ctx().c_str(), o.name.c_str());
        if(got.size() > T.size() || T.compare(0, got.size(), got) != 0)
            fail("wrong-text", "%s delivered \"%s\", which is not the beginning of \"%s\"", ctx().c_str(), N<C>(got).c_str(), esc(expect, 200).c_str());
        bool complete = got.size() == T.size();
        if(state_bad)
        {
            nontrivial();
            if(!got.empty()) fail("written-to-failed-stream", "%s wrote \"%s\" to a stream in state %d", ctx().c_str(), N<C>(got).c_str(), (int)before_state);
            if((os.rdstate() & before_state) != before_state) fail("state-cleared", "%s cleared the stream's state %d", ctx().c_str(), (int)before_state);
            if(!T.empty() && os.good()) fail("unreported", "%s: a failed stream became good", ctx().c_str());
        }
        else if(buf.fired)
        {
            nontrivial();
            if(got.size() != buf.size_at_fault - before.size())
                fail("written-after-failure", "%s: the stream buffer failed after %zu characters but %zu were delivered", ctx().c_str(), buf.size_at_fault - before.size(), got.size());
            if(!os.bad() && !os.fail()) fail("unreported", "%s: the stream buffer failed but the stream is in state %d", ctx().c_str(), (int)os.rdstate());
            if(m & std::ios_base::badbit)
            {
                if(o.what != Outcome::failure && o.what != Outcome::buf) fail("unreported", "%s %s although the stream failed and was asked to throw", ctx().c_str(), what_name[o.what]);
                if(o.what == Outcome::buf && o.id != buf.id) fail("wrong-exception", "%s: a stale exception came out", ctx().c_str());
            }
            else if(!(m & std::ios_base::failbit) && o.what != Outcome::normal)
                fail("spurious", "%s %s", ctx().c_str(), what_name[o.what]);
        }
        else if(user_fired)
        {
            nontrivial();
            if(o.what != Outcome::user || o.id != Points::id) fail("wrong-exception", "%s %s when user code threw", ctx().c_str(), what_name[o.what]);
            if(!os.good()) fail("wrong-state", "%s: state %d although the stream did not fail", ctx().c_str(), (int)os.rdstate());
        }
        else if(oomed && o.what == Outcome::bad_alloc)
        {
            nontrivial();
        }
        else
        {
            if(o.what != Outcome::normal) fail("spurious", "%s %s although nothing failed", ctx().c_str(), what_name[o.what]);
            if(!complete) fail("incomplete", "%s returned normally with a good stream but delivered \"%s\" instead of \"%s\"", ctx().c_str(), N<C>(got).c_str(), esc(expect, 200).c_str());
            if(!os.good()) fail("wrong-state", "%s: state %d although nothing failed", ctx().c_str(), (int)os.rdstate());
        }
        if(os.width() != 0) fail("wrong-state", "%s left a field width behind", ctx().c_str());
        // the trouble is over: the next print must be complete
        buf.plan_none();
        os.exceptions(std::ios_base::goodbit);
        os.clear();
        os.exceptions(mask);
        before = buf.all();
        Outcome o2 = guarded([&]
                             {
            if constexpr(narrow)
            {
                if(how <= h_println) return print_call(how, os, g.fmt, p);
                if(how == h_newline) return papilio::println(os);
            }
            container_call<C>(os, T, form); });
        got = buf.all().substr(before.size());
        if(o2.what != Outcome::normal || !os.good() || got != T)
            fail("no-recovery", "after the stream was cleared %s %s, state %d, and delivered \"%s\"", ctx().c_str(), what_name[o2.what], (int)os.rdstate(), N<C>(got).c_str());
    }
}

void run()
{
    Points::reset();
    Points::id = 0;
    Ledger::live = 0;
    if(chance(1, 6)) run_as<wchar_t>();
    else run_as<char>();
    if(Ledger::live) fail("object-count", "%ld user objects too many or too few", Ledger::live);
}
#endif
} // namespace c03

#if SIM_PART == 0
const Property sim::property = {
    "C03", c03::run, 300000, 3000000, 60000000,
    "random texts (format strings of 1-5 pieces, string containers and references, code points, joiners) printed 1-6 times to an ostream whose buffer (unbuffered to 64 characters, character-wise or bulk) refuses or throws at a character, once or for good, fails to sync, whose stream has failed before, or while user code throws or an allocation fails; exception masks and unitbuf at random; non-trivial: a fault fired",
    "all of src/ and include/, libstdc++ ostream",
    "the stream buffer below the ostream, user types"};
#endif
