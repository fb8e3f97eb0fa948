// C02: prints to a FILE* are all or nothing when formatting fails, and contiguous when threads
// print to the same stream at the same time.
// SIM: mode=sched
#include "fmtwork.hpp"
#include "simfile.hpp"
#include <papilio/color.hpp>
#include <papilio/print.hpp>
#include <memory>
#include <system_error>

using namespace sim;
using namespace fw;

namespace
{
// an argument whose formatter prints to the same stream before it writes its own text
struct PrintsInside
{
    std::FILE* fp;
    const std::string* inner;
    const std::string* text;
};
} // namespace
namespace papilio
{
template <>
struct formatter<PrintsInside, char>
{
    template <typename ParseContext>
    auto parse(ParseContext& ctx)
    {
        return ctx.begin();
    }
    template <typename Context>
    auto format(const PrintsInside& v, Context& ctx) const
    {
        papilio::println(v.fp, "{}", *v.inner);
        using context_t = format_context_traits<Context>;
        context_t::append(ctx, *v.text);
        return ctx.out();
    }
};
} // namespace papilio
namespace
{
enum Api : int
{
    p_file,
    pln_file,
    p_out,
    pln_out,
    p_style,
    pln_style,
    pln_file_empty,
    pln_out_empty,
    raw_lib,   // os::output_nonconv
    raw_lib_c, // os::output_conv
    raw_user,  // the program's own fwrite to the same stream
    api_count
};

struct Op
{
    int api = 0, file = 0, shape = 0;
    std::string text; // what the stream gets when it succeeds
    std::string a;
    int n = 0;
    bool bad = false; // the format string is in error
    Oom oom = Oom::none;
    u64 k = 0;
    bool thr = false; // user code throws
    u64 tk = 0;
    int kind = 0;
    bool nested = false;  // printed by a formatter of the next one
    Op* inner = nullptr;
    bool grouped = false; // the caller holds the stream over this call and the next
    // outcome
    enum Out
    {
        not_run,
        done,
        failed
    } out = not_run;
    u64 from = 0, to = 0;
    u64 fired = 0, oomed = 0;
    std::string what;
    std::shared_ptr<Fmt> f;

    void gen(int files, const std::string& tag, bool unique)
    {
        api = (int)draw(api_count);
        if(unique && (api == pln_file_empty || api == pln_out_empty)) api = pln_file;
        file = api == p_out || api == pln_out || api == p_style || api == pln_style || api == pln_out_empty ? 0 : (int)draw(files);
        shape = (int)draw(5);
        a = tag + (chance(1, 4) ? std::string(20 + draw(chance(1, 8) ? 9000 : 300), char('a' + draw(26))) : rand_ascii(12));
        if(chance(1, 4)) a += "\n" + rand_ascii(6);
        n = (int)draw(2000) - 1000;
        f = std::make_shared<Fmt>(rand_ascii(8));
        std::string t;
        std::string num = std::to_string(n);
        switch(shape)
        {
        case 0: t = a; break;
        case 1: t = a + "=" + num + "<" + f->text + ">"; break;
        case 2: t = a + " <" + f->text + "> " + a; break;
        case 3: t = a + (n < 0 ? "-" : "<" + f->text + ">"); break;
        case 4: t = a + std::string(num.size() < 30 ? 30 - num.size() : 0, '*') + num; break;
        }
        std::string nl = "\n";
        switch(api)
        {
        case p_file:
        case p_out: text = t; break;
        case pln_file:
        case pln_out: text = t + nl; break;
        case p_style: text = "\033[1m\033[31m" + t + "\033[0m"; break;
        case pln_style: text = "\033[1m\033[31m" + t + "\033[0m" + nl; break;
        case pln_file_empty:
        case pln_out_empty: text = nl; break;
        default: text = a; break;
        }
        if(api <= pln_style)
        {
            switch(draw(8))
            {
            case 5: bad = true; break;
            case 6:
                thr = true;
                tk = draw(24);
                kind = (int)draw(k_count);
                break;
            case 7:
                oom = draw(2) ? Oom::once : Oom::persistent;
                k = 1 + draw(14);
                break;
            default: break;
            }
        }
    }
    // turns this print into one that makes a print of its own while it formats
    void nest(Op& in, const std::string& tag)
    {
        in.nested = true;
        in.file = file;
        in.a = in.text = tag;
        in.text += '\n';
        bad = thr = false;
        oom = Oom::none;
        inner = &in;
        shape = 5;
        std::string t = a + "~" + a + a;
        api = api == pln_file || api == pln_out ? api : draw(2) ? (int)pln_file : (int)p_file;
        text = api == p_file ? t : t + "\n";
    }
    template <typename F>
    void dispatch(F&& fn, std::FILE* fp)
    {
        if(shape == 5)
        {
            PrintsInside n{fp, &inner->a, &a};
            fn("{}~{}{}", a, n, a);
            return;
        }
        switch(shape)
        {
        case 0: bad ? fn("{}{", a) : fn("{}", a); break;
        case 1: bad ? fn("{}={}{}{7}", a, n, *f) : fn("{}={}{}", a, n, *f); break;
        case 2: bad ? fn("{0} {1} {0:!}", a, *f) : fn("{0} {1} {0}", a, *f); break;
        case 3: bad ? fn("{0}{$ {1} < 0 ? '-' : {nope}}{$}", a, n, *f) : fn("{0}{$ {1} < 0 ? '-' : {2}}", a, n, *f); break;
        default: bad ? fn("{}{:*>{x}}", a, n) : fn("{}{:*>30}", a, n); break;
        }
    }
    void call(std::FILE* fp)
    {
        using namespace papilio;
        switch(api)
        {
        case p_file: dispatch([&](const char* fm, auto&... x) { papilio::print(fp, fm, x...); }, fp); break;
        case pln_file: dispatch([&](const char* fm, auto&... x) { papilio::println(fp, fm, x...); }, fp); break;
        case p_out: dispatch([&](const char* fm, auto&... x) { papilio::print(fm, x...); }, fp); break;
        case pln_out: dispatch([&](const char* fm, auto&... x) { papilio::println(fm, x...); }, fp); break;
        case p_style: dispatch([&](const char* fm, auto&... x) { papilio::print(fg(color::red) | style::bold, fm, x...); }, fp); break;
        case pln_style: dispatch([&](const char* fm, auto&... x) { papilio::println(fg(color::red) | style::bold, fm, x...); }, fp); break;
        case pln_file_empty: papilio::println(fp); break;
        case pln_out_empty: papilio::println(); break;
        case raw_lib: os::output_nonconv(fp, a); break;
        case raw_lib_c: os::output_conv(fp, a); break;
        default: std::fwrite(a.data(), 1, a.size(), fp); break;
        }
    }
    void run(std::FILE* fp)
    {
        from = sched::clock();
        out = failed;
        if(inner) inner->from = from;
        {
            Sut t;
            if(thr)
            {
                Points::reset();
                Points::arm(tk, kind);
                Points::only = sched::self();
            }
            if(oom != Oom::none) arm_oom(oom, k);
            try
            {
                call(fp);
                out = done;
            }
            catch(const std::exception& e)
            {
                Harness h;
                what = e.what();
            }
            catch(const UserThrow&)
            {
                Harness h;
                what = "user exception";
            }
            catch(int)
            {
                Harness h;
                what = "user exception";
            }
            oomed = oom_fired();
            disarm_oom();
        }
        if(thr && Points::only == sched::self())
        {
            fired = Points::fired;
            Points::armed = false;
            Points::only = -1;
        }
        to = sched::clock();
        if(inner)
        {
            inner->to = to;
            inner->out = out;
            probe("formatter-that-prints");
        }
        if(oomed || fired || bad) nontrivial();
        ev("  %s api %d shape %d on file %d: %s%s%s", out == done ? "ok" : "FAILED", api, shape, file, esc(text, 24).c_str(), out == failed ? ": " : "", what.c_str());
        mark_state((u64)api * 64 + (u64)shape * 8 + (u64)out * 2 + (oomed || fired || bad) + (sched::preemptions() ? 4096 : 0));
        if(out == failed && !bad && !oomed && !fired) fail("spurious-failure", "a print failed for no reason: %s", what.c_str());
        if(out == done && (bad || fired)) fail("swallowed", "a print returned normally although formatting failed");
    }
};

struct StdoutSwap
{
    std::FILE* saved;
    explicit StdoutSwap(std::FILE* f) : saved(stdout) { stdout = f; }
    ~StdoutSwap() { stdout = saved; }
};

void expect(const SimFile& f, const std::string& want, const char* when)
{
    if(f.dev.disk == want) return;
    std::size_t i = 0;
    while(i < want.size() && i < f.dev.disk.size() && want[i] == f.dev.disk[i]) ++i;
    std::size_t b = i > 20 ? i - 20 : 0;
    fail("stream-content", "%s: the stream holds %zu bytes, expected %zu; at byte %zu: %s, expected %s", when, f.dev.disk.size(), want.size(), i, esc(f.dev.disk.substr(b, 60)).c_str(), esc(want.substr(b, 60)).c_str());
}

// one thread: a call that fails while formatting leaves nothing behind
void alone()
{
    SimFile f[2];
    f[0].open("w");
    f[1].open("w");
    StdoutSwap sw(f[0].f);
    std::string want[2];
    for(u64 n = range(1, 6), q = 0; q < n; ++q)
    {
        op_begin();
        Op o;
        o.gen(2, "", false);
        if(chance(1, 3))
        { // something of the program's own is still in the buffer
            std::string own = rand_ascii(20);
            std::fwrite(own.data(), 1, own.size(), f[o.file].f);
            want[o.file] += own;
        }
        // without other threads a throw point needs no owner
        Op in;
        if(o.api < p_style && chance(1, 8))
        {
            o.nest(in, rand_ascii(8));
            want[o.file] += in.text;
        }
        o.run(f[o.file].f);
        if(o.out == Op::done) want[o.file] += o.text;
        if(o.out == Op::failed) probe("failed-print");
        if(o.out == Op::done && o.api != raw_user) expect(f[o.file], want[o.file], "after a print");
        if(f[0].dev.disk.size() > want[0].size() || f[1].dev.disk.size() > want[1].size()) fail("stream-content", "a failed print wrote to the stream");
        if(draw(2))
        {
            for(int k = 0; k < 2; ++k)
            {
                std::fflush(f[k].f);
                expect(f[k], want[k], o.out == Op::failed ? "flushed after a failed print" : "flushed after a print");
            }
        }
    }
    for(int k = 0; k < 2; ++k)
    {
        std::fflush(f[k].f);
        expect(f[k], want[k], "at the end");
    }
}

// several threads: every message whole, in an order that respects returns
void together()
{
    int files = 1 + (int)draw(2), threads = 2 + (int)draw(3);
    SimFile f[2];
    for(int k = 0; k < files; ++k) f[k].open("w");
    StdoutSwap sw(f[0].f);
    std::vector<std::vector<Op>> ops(threads);
    for(int t = 0; t < threads; ++t)
    {
        ops[t].resize(range(1, 4));
        std::vector<Op>& v = ops[t];
        v.reserve(8);
        for(std::size_t q = 0; q < ops[t].size(); ++q)
        {
            op_begin();
            char tag[16];
            std::snprintf(tag, sizeof tag, "%d.%zu:", t, q);
            ops[t][q].gen(files, tag, true);
            if(t && ops[t][q].thr) ops[t][q].thr = false; // one thrower at a time
            ops[t][q].grouped = q + 1 < ops[t].size() && chance(1, 6);
            if(v[q].api < p_style && chance(1, 12))
            {
                std::snprintf(tag, sizeof tag, "%d.%zu(", t, q);
                v.insert(v.begin() + q, Op{});
                v[q + 1].grouped = false;
                if(q) v[q - 1].grouped = false;
                v[q + 1].nest(v[q], tag + rand_ascii(6));
                ++q;
            }
        }
        for(std::size_t q = 0; q + 1 < v.size(); ++q)
            if(v[q].nested) v[q + 1].inner = &v[q];
        for(std::size_t q = 0; q + 1 < ops[t].size(); ++q)
            if(ops[t][q].grouped) ops[t][q].grouped = ops[t][q].file == ops[t][q + 1].file;
    }
    sched::run(threads, [&](int t)
    {
        for(std::size_t q = 0; q < ops[t].size(); ++q)
        {
            Op& o = ops[t][q];
            if(o.nested) continue;
            if(o.grouped && !(q && ops[t][q - 1].grouped))
            {
                flockfile(f[o.file].f);
                o.run(f[o.file].f);
                ++q;
                for(;; ++q)
                {
                    ops[t][q].run(f[o.file].f);
                    if(!ops[t][q].grouped) break;
                }
                funlockfile(f[o.file].f);
                probe("prints-under-flockfile");
            }
            else
                o.run(f[o.file].f);
        }
    });
    if(flagged()) return;
    // the recorded history
    for(int k = 0; k < files; ++k)
    {
        std::fflush(f[k].f);
        const std::string& d = f[k].dev.disk;
        std::size_t pos = 0;
        std::vector<std::pair<int, std::size_t>> order;
        std::vector<std::size_t> next(threads, 0);
        auto skip = [&](int t)
        { // messages that are not on this stream
            while(next[t] < ops[t].size() && (ops[t][next[t]].file != k || ops[t][next[t]].out != Op::done)) ++next[t];
        };
        while(pos < d.size())
        {
            bool found = false;
            for(int t = 0; t < threads && !found; ++t)
            {
                skip(t);
                if(next[t] >= ops[t].size()) continue;
                const std::string& m = ops[t][next[t]].text;
                if(d.compare(pos, m.size(), m) == 0)
                {
                    order.push_back({t, next[t]++});
                    pos += m.size();
                    found = true;
                }
            }
            if(!found)
                fail("torn-message", "file %d: at byte %zu of %zu no thread's next message stands complete: %s", k, pos, d.size(), esc(d.substr(pos > 30 ? pos - 30 : 0, 90), 90).c_str());
        }
        for(int t = 0; t < threads; ++t)
        {
            skip(t);
            if(next[t] < ops[t].size()) fail("lost-message", "file %d: message %s of thread %d is missing", k, esc(ops[t][next[t]].text, 40).c_str(), t);
        }
        // a print that had returned precedes one called later; held streams stay held
        for(std::size_t i = 0; i + 1 < order.size(); ++i)
            for(std::size_t j = i + 1; j < order.size(); ++j)
            {
                const Op &x = ops[order[i].first][order[i].second], &y = ops[order[j].first][order[j].second];
                if(y.to < x.from) fail("order", "file %d: %s was printed completely before %s was called, but stands behind it", k, esc(y.text, 30).c_str(), esc(x.text, 30).c_str());
            }
        for(std::size_t i = 0; i < order.size(); ++i)
        {
            auto [t, q] = order[i];
            if(!ops[t][q].grouped) continue;
            std::size_t q2 = q + 1; // the next one of the group that succeeded follows at once
            while(q2 < ops[t].size() && ops[t][q2 - 1].grouped && ops[t][q2].out != Op::done) ++q2;
            if(q2 >= ops[t].size() || !ops[t][q2 - 1].grouped) continue;
            if(i + 1 >= order.size() || order[i + 1] != std::pair<int, std::size_t>(t, q2)) fail("held-stream", "file %d: something got between two prints made under flockfile", k);
        }
    }
    if(sched::preemptions()) probe("preempted-run");
}

void run()
{
    on_terminal = draw(3) == 2;
    Points::reset();
    Points::id = 0;
    Points::only = -1;
    Ledger::live = 0;
    if(chance(3, 4)) together();
    else alone();
    if(flagged()) return;
    if(Ledger::live) fail("object-count", "%ld user objects too many or too few", Ledger::live);
}
} // namespace

const Property sim::property = {
    "C02", run, 50000, 800000, 3000000,
    "2-4 threads make 1-4 prints each (11 ways to print, 5 format strings; formatting may fail by a bad format string, a throwing formatter or a failed allocation) to one or two streams of any buffering under a seeded schedule that may switch threads at every memory access, lock, stdio call and inside device writes; or one thread does 1-6 such calls; non-trivial: preempted or a fault fired",
    "print functions, os output, formatting core, glibc stdio",
    "device behind the FILE (fopencookie), thread scheduling, stream locks (modelled around the real ones), operator new", true, true};
