// C15: reading a formatted_range delivers exactly the text of its format string, piece by piece.
#include "fmtwork.hpp"
#include <algorithm>
#include <memory>
#include <ranges>

using namespace sim;
using namespace fw;

namespace
{
template <typename C>
using Ctx = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
template <typename C>
using Range = papilio::formatted_range<C>;
template <typename C>
using It = typename Range<C>::iterator;

template <typename C>
struct Reader
{
    Program g;
    std::basic_string<C> fmt, text; // text that can be read before the end or the error
    std::string bad;                // the format string ends in an error
    std::vector<bool> edge;         // reading may fail here: the text of a piece starts or ends
    std::unique_ptr<Range<C>> range;
    std::unique_ptr<It<C>> it;
    std::unique_ptr<It<C>> husk; // an iterator that was moved from
    std::size_t pos = 0;
    bool lazy = false;  // characters were stepped over that may not have been made yet
    bool second = false;
    bool ended = false; // failed: only destroyed from here on
};

template <typename C>
struct Session
{
    Pack<C>& p;
    Pack<C>& p2; // some readers have arguments of their own
    std::vector<Reader<C>> r;
    std::basic_string<C> got; // what one operation delivered
    u64 faults_left;

    // One operation on a reader, possibly with a fault.  fn delivers characters into `got`.
    template <typename F>
    void step(Reader<C>& a, const char* name, bool may_end, F&& fn, bool exact = true)
    {
        bool oom = false, thr = false;
        if(faults_left && chance(1, 6))
        {
            --faults_left;
            if(draw(2))
            {
                thr = true;
                Points::arm(draw(6), (int)draw(k_count));
            }
            else oom = true;
        }
        Oom mode = draw(2) ? Oom::persistent : Oom::once;
        u64 k = oom ? draw(5) : 0;
        got.clear();
        got.reserve(a.text.size() + 64);
        enum
        {
            normal,
            alloc,
            user,
            error
        } out = normal;
        static const char* const out_name[] = {"done", "bad_alloc", "an exception of user code", "an error"};
        u64 fired = 0;
        std::string what;
        {
            Sut s;
            if(oom) arm_oom(mode, k);
            auto note = [&](int o, const char* w)
            {
                fired = oom_fired();
                disarm_oom();
                Harness h;
                out = (decltype(out))o;
                what = w;
            };
            try
            {
                fn();
                fired = oom_fired();
            }
            catch(const UserAlloc&) { note(user, ""); }
            catch(const std::bad_alloc&) { note(alloc, ""); }
            catch(const UserThrow&) { note(user, ""); }
            catch(const UserRuntime&) { note(user, ""); }
            catch(const UserFormat&) { note(user, ""); }
            catch(const UserRange&) { note(user, ""); }
            catch(const UserIos&) { note(user, ""); }
            catch(int) { note(user, ""); }
            catch(const std::exception& e) { note(error, e.what()); }
            disarm_oom();
        }
        if(!oom) fired = 0;
        u64 ufired = thr ? Points::fired : 0;
        Points::armed = false;
        long id = &a - r.data();
        ev("%ld %s: %zu characters from %zu, %s", id, name, got.size(), a.pos, out_name[out]);
        if(a.text.compare(a.pos, got.size(), got) != 0 || a.pos + got.size() > a.text.size())
            fail("wrong-text", "reader %ld of \"%s\": %s at character %zu delivered \"%s\", expected \"%s\"", id, a.g.fmt.c_str(), name, a.pos, N<C>(got).c_str(),
                 N<C>(std::basic_string_view<C>(a.text).substr(a.pos)).c_str());
        a.pos += got.size();
        if(!got.empty()) a.lazy = false;
        if(fired) nontrivial(), probe("allocation-failed-while-reading");
        if(out != normal) a.ended = true;
        mark_state((((u64)std::min<std::size_t>(a.pos, 30) * 4 + out) * 2 + !!fired) * 8 + r.size() * 2 + a.bad.empty());
        switch(out)
        {
        case normal:
            if(ufired) fail("swallowed", "reader %ld of \"%s\": %s swallowed an exception of user code", id, a.g.fmt.c_str(), name);
            return;
        case alloc:
            if(!fired) fail("spurious", "reader %ld of \"%s\": %s threw bad_alloc although no allocation failed", id, a.g.fmt.c_str(), name);
            break;
        case user:
            if(!ufired) fail("spurious", "reader %ld of \"%s\": %s threw an exception of user code that was not thrown", id, a.g.fmt.c_str(), name);
            nontrivial();
            probe("user-code-threw-while-reading");
            break;
        default:
            if(a.bad.empty()) fail("spurious", "reader %ld of \"%s\": %s failed with \"%s\"", id, a.g.fmt.c_str(), name, what.c_str());
            if(!may_end || exact && a.pos != a.text.size())
                fail("early-error", "reader %ld of \"%s\": %s reported \"%s\" at character %zu, before the text in front of the error was read (%zu characters)", id, a.g.fmt.c_str(), name, what.c_str(), a.pos,
                     a.text.size());
            probe("error-after-the-text");
            return;
        }
        if(exact && !a.lazy && a.pos < a.edge.size() && !a.edge[a.pos])
            fail("early-failure", "reader %ld of \"%s\": %s failed at character %zu, in the middle of text that was formatted before", id, a.g.fmt.c_str(), name, a.pos);
    }

    void make(Reader<C>& a)
    {
        a.second = draw(3) == 2;
        a.g = program(a.second ? p2 : p, 5);
        a.text = W<C>(a.g.text);
        a.edge.assign(a.text.size() + 1, false);
        std::size_t at = 0;
        a.edge[0] = true;
        for(auto& x : a.g.pieces)
        {
            if(x.fmt == x.text)
                for(std::size_t q = W<C>(x.text).size(); q--;) a.edge[at + q] = true;
            at += W<C>(x.text).size();
            a.edge[at] = true;
        }
        if(chance(1, 5))
        {
            static const char* const bad[] = {"{s.nope}", "{r.nope}", "{999}", "{nope}", "{", "}", "{0[", "{7[99]}", "{8['zz']}", "{f:x}", "{$ {0} ? }", "{$ {nope} ? 'x'}", "{s[x}", "{$ {s} ? 'unterminated}", "{f"};
            a.bad = pick(bad);
            a.g.fmt += a.bad;
        }
        a.fmt = W<C>(a.g.fmt);
        ev("reader %ld%s: \"%s\"", (long)(&a - r.data()), a.second ? " (other arguments)" : "", esc(a.g.fmt, 300).c_str());
    }

    void run(const papilio::format_args_base<Ctx<C>, C>& args, const papilio::format_args_base<Ctx<C>, C>& other)
    {
        u64 n = r.size();
        for(auto& a : r)
        {
            make(a);
            Sut s;
            a.range.reset(new Range<C>(a.fmt, papilio::basic_format_args_ref<Ctx<C>, C>(a.second ? other : args)));
        }
        u64 idle = 0, done = 0;
        for(u64 q = 0; q < 400 && done < n; ++q)
        {
            op_begin();
            Reader<C>& a = r[draw(n)];
            if(!a.range)
            {
                if(++idle > 60) break;
                continue;
            }
            std::size_t left = a.text.size() - a.pos;
            if(a.ended || chance(1, 40))
            { // abandoned where it stands
                Sut s;
                if(draw(2)) a.husk.reset();
                a.it.reset();
                a.husk.reset();
                a.range.reset();
                ++done;
                continue;
            }
            if(!a.it)
            {
                if(!a.fmt.empty() && chance(1, 6))
                { // through the range algorithms, to the end
                    static const char* const how[] = {"ranges::copy", "range for", "views::drop | transform", "views::take + rest", "ranges::for_each", "ranges::find"};
                    u64 h = draw(6);
                    u64 skip = left ? draw(left) : 0, target = left ? draw(left) : 0;
                    step(a, how[h], true, [&]
                    {
                        auto put = [&](C c)
                        {
                            Harness hh;
                            got += c;
                        };
                        switch(h)
                        {
                        case 0:
                            std::ranges::copy(a.range->begin(), a.range->end(), std::back_inserter(got)); // room was made
                            break;
                        case 1:
                            for(C c : *a.range) put(c);
                            break;
                        case 2:
                            got.assign(a.text, 0, skip);
                            for(C c : *a.range | std::views::drop(skip) | std::views::transform([](C c) { return c; })) put(c);
                            break;
                        case 3:
                        {
                            auto i = a.range->begin();
                            for(C c : std::ranges::subrange(std::move(i), a.range->end()) | std::views::take(skip)) put(c);
                            break;
                        }
                        case 4: std::ranges::for_each(a.range->begin(), a.range->end(), put); break;
                        default:
                        {
                            if(!left) break;
                            auto i = std::ranges::find(a.range->begin(), a.range->end(), a.text[target]);
                            std::size_t at = a.text.find(a.text[target]);
                            if(i == a.range->end())
                            {
                                flag("wrong-text", "ranges::find did not find a character of the text");
                                break;
                            }
                            got.assign(a.text, 0, at);
                            put(*i);
                            ++i;
                            break;
                        }
                        }
                    }, h < 2 || h == 4);
                    // the algorithms that read everything must have met the end
                    if(!a.ended && (h < 3 || h == 4))
                    {
                        if(a.pos != a.text.size()) fail("cut-short", "reader of \"%s\": %s delivered %zu of %zu characters", a.g.fmt.c_str(), how[h], a.pos, a.text.size());
                        if(!a.bad.empty()) fail("error-lost", "reader of \"%s\": %s met the end although \"%s\" is in error", a.g.fmt.c_str(), how[h], a.bad.c_str());
                    }
                    a.ended = true;
                    continue;
                }
                step(a, "begin", false, [&] { a.it.reset(new It<C>(a.range->begin())); });
                continue;
            }
            switch(draw(8))
            {
            default:
            { // read some characters
                u64 m = left ? range(1, std::min<u64>(left, draw(2) ? 3 : 40)) : 0;
                u64 again = draw(8) == 7;
                bool test = draw(2);
                step(a, "read", false, [&]
                {
                    for(u64 k = 0; k < m; ++k)
                    {
                        if(test && *a.it == a.range->end())
                        {
                            flag("cut-short", "the end was reported before the end of the text");
                            return;
                        }
                        C c = **a.it;
                        for(u64 z = again; z--;)
                            if(**a.it != c) flag("unstable", "reading the same position twice gave two characters");
                        if(k & 1) ++*a.it;
                        else (*a.it)++;
                        Harness h;
                        got += c;
                    }
                });
                break;
            }
            case 3:
            { // step over characters without looking at them
                u64 m = left ? range(1, std::min<u64>(left, 20)) : 0;
                if(!m) break;
                step(a, "skip", false, [&] { for(u64 k = 0; k < m; ++k) ++*a.it; });
                if(!a.ended) a.pos += m, a.lazy = true;
                if(a.ended) break;
                if(draw(2))
                    step(a, "advance to the end", true, [&]
                    {
                        std::size_t cnt = 0;
                        while(!(*a.it == a.range->end()))
                        {
                            if(++cnt > a.text.size() + 8) break;
                            C c = **a.it;
                            ++*a.it;
                            Harness h;
                            got += c;
                        }
                    });
                break;
            }
            case 4:
            case 5:
            {
                bool at_end = false;
                step(a, "compare with end", true, [&] { at_end = a.range->end() == *a.it; });
                if(a.ended) break;
                if(at_end != (left == 0)) fail(at_end ? "cut-short" : "no-end", "reader of \"%s\": at character %zu of %zu the end is %sreported", a.g.fmt.c_str(), a.pos, a.text.size(), at_end ? "" : "not ");
                if(at_end && !a.bad.empty()) fail("error-lost", "reader of \"%s\": the end was reported although \"%s\" is in error", a.g.fmt.c_str(), a.bad.c_str());
                if(at_end && draw(4))
                {
                    a.ended = true;
                    nontrivial();
                    probe("read-to-its-end");
                }
                break;
            }
            case 6:
                step(a, "move", false, [&]
                {
                    std::unique_ptr<It<C>> n(new It<C>(std::move(*a.it)));
                    a.husk = std::move(a.it);
                    if(a.pos & 1) a.husk.reset();
                    a.it = std::move(n);
                }, false);
                probe("iterator-moved");
                break;
            case 7:
            { // assigned over an iterator of any range
                Reader<C>& b = r[draw(n)];
                step(a, "assign", false, [&]
                {
                    if(&b != &a && b.range && b.ended && b.it)
                    {
                        *b.it = std::move(*a.it);
                        std::swap(a.it, b.it);
                    }
                    else if(a.husk)
                    {
                        *a.husk = std::move(*a.it);
                        std::swap(a.it, a.husk);
                    }
                });
                probe("iterator-assigned");
                break;
            }
            }
        }
        Sut s;
        for(auto& a : r)
        {
            a.husk.reset();
            a.it.reset();
            a.range.reset();
        }
    }
};

template <typename C>
void run_as()
{
    long ledger0 = Ledger::live;
    {
        Pack<C> p, p2;
        const std::string print = p.print() + p2.print();
        u64 blocks0 = live_blocks();
        {
            Session<C> s{p, p2, std::vector<Reader<C>>(range(1, 3)), {}, draw(4)};
            p.apply([&](auto&&... a)
            {
                return p2.apply([&](auto&&... b)
                {
                    papilio::basic_dynamic_format_args<Ctx<C>, C> dyn(a...);
                    auto sta = papilio::make_format_args<Ctx<C>>(b...);
                    s.run(dyn, sta);
                    return 0;
                });
            });
        }
        if(leaked_since(blocks0)) fail("leak", "reading left %llu blocks allocated", (unsigned long long)(live_blocks() - blocks0));
        if(p.print() + p2.print() != print) fail("argument-changed", "reading changed its arguments: %s is now %s", print.c_str(), (p.print() + p2.print()).c_str());
    }
    if(Ledger::live != ledger0) fail("object-count", "%ld user objects too many or too few", Ledger::live - ledger0);
}

void run()
{
    Points::reset();
    Ledger::live = 0;
    if(chance(1, 3)) run_as<wchar_t>();
    else run_as<char>();
}
} // namespace

const Property sim::property = {
    "C15", run, 400000, 8000000, 60000000,
    "one to three readers over shared arguments, their operations interleaved at random: read, read twice, step over, compare with the end, move and assign iterators, range algorithms, abandon; format strings of 1-5 pieces whose text the harness computes itself, some ending in an error; the k-th allocation of an operation fails, user code throws; non-trivial: a fault fired or a text was read to its end",
    "all of src/ and include/, libstdc++ ranges and strings",
    "global operator new/delete (fault-injecting allocator), user types"};
