// C01: a print to a FILE* that returns normally has handed every byte to the OS;
// otherwise it reports std::system_error.
#include "sim.hpp"
#include "simfile.hpp"
#include <papilio/papilio.hpp>
#include <papilio/print.hpp>
#include <papilio/color.hpp>
#include <memory>
#include <system_error>

using namespace sim;

namespace
{
struct StdoutSwap
{
    std::FILE* saved;
    StdoutSwap(std::FILE* f)
        : saved(stdout) { stdout = f; }
    ~StdoutSwap() { stdout = saved; }
};

struct StyleModel
{
    papilio::text_style st;
    std::string set, reset;
};

StyleModel make_style()
{
    StyleModel m;
    unsigned bits = (unsigned)draw(16);
    int fg = (int)draw(9), bg = fg ? (int)draw(9) : 0;
    const papilio::style ss[4] = {papilio::style::bold, papilio::style::faint, papilio::style::italic, papilio::style::underline};
    for(int i = 0; i < 4; ++i)
        if(bits >> i & 1)
        {
            m.st |= ss[i];
            m.set += "\033[" + std::to_string(i + 1) + "m";
        }
    if(fg)
    {
        m.st |= papilio::fg((papilio::color)(29 + fg));
        m.set += "\033[" + std::to_string(29 + fg);
        if(bg)
        {
            m.st |= papilio::bg((papilio::color)(29 + bg));
            m.set += ";" + std::to_string(39 + bg);
        }
        m.set += "m";
    }
    if(bits || fg) m.reset = "\033[0m";
    return m;
}

std::string payload()
{
    switch(draw(6))
    {
    default:
        if(draw(100) == 99) return std::string(60000 + draw(150000), char('a' + draw(26))); // larger than any stdio buffer
        return rand_ascii(24);
    case 2: return rand_utf8(300);
    case 3: return std::string(1 + draw(5000), char('A' + draw(26)));
    case 4:
    {
        std::string s = rand_utf8(16);
        s.insert(0, 1, '\0');
        return s;
    }
    case 5: return std::string(1, '\n') + rand_ascii(8) + "\n" + rand_ascii(4);
    }
}

// one print call through a random overload; fills in the expected text first
struct Call
{
    int api = 0; // 0 print(FILE) 1 println(FILE) 2 print() 3 println() 4 styled print 5 styled println 6 println(FILE) empty 7 println() empty 8 os::output_nonconv 9 os::output_conv
    int shape = 0;
    std::string a, b;
    int n = 0;
    StyleModel st;
    std::string expected;

    void gen()
    {
        api = (int)draw(10);
        shape = (int)draw(7);
        a = payload();
        if(shape == 1) b = payload();
        n = (int)draw(2000) - 1000;
        if(api >= 8 && draw(2)) a = rand_bytes(300); // raw output takes any bytes
        if(api == 4 || api == 5) st = make_style();
        std::string t;
        switch(shape)
        {
        case 0: t = a; break;
        case 1: t = a + "|" + std::to_string(n) + "|" + b; break;
        case 2: t = "{" + std::to_string(n) + "}"; break;
        case 3: t = a + a; break;
        case 4: t = ""; break;
        case 5: t = "plain text\n"; break;
        case 6: t = std::string(n < 0 ? "-" : "+") + a; break;
        }
        switch(api)
        {
        case 0:
        case 2: expected = t; break;
        case 1:
        case 3: expected = t + "\n"; break;
        case 4: expected = st.set + t + st.reset; break;
        case 5: expected = st.set + t + st.reset + "\n"; break;
        case 6:
        case 7: expected = "\n"; break;
        case 8:
        case 9: expected = a; break;
        }
    }

    template <typename F>
    void dispatch(F&& f) const
    {
        switch(shape)
        {
        case 0: f("{}", a); break;
        case 1: f("{}|{}|{}", a, n, b); break;
        case 2: f("{{{}}}", n); break;
        case 3: f("{0}{0}", a); break;
        case 4: f(""); break;
        case 5: f("plain text\n"); break;
        case 6: f("{$ {0} < 0 ? '-' : '+'}{1}", n, a); break;
        }
    }

    void perform(std::FILE* f) const
    {
        using namespace papilio;
        switch(api)
        {
        case 0: dispatch([&](auto fmt, const auto&... x) { papilio::print(f, fmt, x...); }); break;
        case 1: dispatch([&](auto fmt, const auto&... x) { papilio::println(f, fmt, x...); }); break;
        case 2: dispatch([&](auto fmt, const auto&... x) { papilio::print(fmt, x...); }); break;
        case 3: dispatch([&](auto fmt, const auto&... x) { papilio::println(fmt, x...); }); break;
        case 4: dispatch([&](auto fmt, const auto&... x) { papilio::print(st.st, fmt, x...); }); break;
        case 5: dispatch([&](auto fmt, const auto&... x) { papilio::println(st.st, fmt, x...); }); break;
        case 6: papilio::println(f); break;
        case 7: papilio::println(); break;
        case 8: papilio::os::output_nonconv(f, a); break;
        case 9: papilio::os::output_conv(f, a); break;
        }
    }
};

bool is_prefix(const std::string& p, const std::string& s)
{
    return p.size() <= s.size() && !std::memcmp(p.data(), s.data(), p.size());
}

void run()
{
    const int nfiles = 1 + (int)draw(2);
    on_terminal = draw(3) == 2;
    SimFile files[2];
    bool writable[2] = {true, true};
    for(int i = 0; i < nfiles; ++i)
    {
        u64 m = draw(12);
        if(m == 10)
        {
            files[i].open("r");
            writable[i] = false;
        }
        else
            files[i].open(m == 9 ? "a" : m == 8 ? "w+" : "w");
        ev("open file%d %s", i, writable[i] ? "writable" : "not byte-writable");
    }
    std::string pending[2]; // raw user data that may still sit in the stdio buffer
    const bool faults = draw(3) != 0;
    for(int step = 0; step < 8; ++step)
    {
        op_begin();
        if(step && draw(5) == 0) break;
        int fi = (int)draw(nfiles);
        SimFile& sf = files[fi];
        if(writable[fi] && draw(6) == 5)
        {
            std::string raw = rand_ascii(40);
            std::string before = sf.dev.disk + pending[fi];
            std::fwrite(raw.data(), 1, raw.size(), sf.f);
            std::string want = before + raw;
            // some of it may have been flushed already
            if(!is_prefix(sf.dev.disk, want)) fail("internal", "stdio model");
            pending[fi] = want.substr(sf.dev.disk.size());
            ev("user fwrite %zu bytes, %zu buffered", raw.size(), pending[fi].size());
            continue;
        }
        Call c;
        c.gen();
        const std::string before = sf.dev.disk;
        const std::string want = before + pending[fi] + c.expected;
        bool planned = faults && draw(2);
        if(planned) sf.dev.plan(want.size() - before.size() + 4);
        sf.dev.allowed = want;
        sf.dev.check_prefix = true;
        sf.dev.fired = 0;
        ev("file%d api=%d shape=%d len=%zu%s", fi, c.api, c.shape, c.expected.size(), planned ? " (fault planned)" : "");
        bool threw = false;
        const bool stale = std::ferror(sf.f) != 0; // left over from an earlier failed call
        std::string what;
        {
            StdoutSwap sw(sf.f);
            try
            {
                Sut s;
                c.perform(sf.f);
            }
            catch(const std::system_error& e)
            {
                threw = true;
                what = e.what();
            }
        }
        const unsigned fired = sf.dev.fired;
        sf.dev.check_prefix = false;
        sf.dev.clear();
        ev("  -> %s, disk +%zu", threw ? "system_error" : "ok", sf.dev.disk.size() - before.size());
        if(flagged()) return;
        if(!threw)
        {
            // crash now: only what the device accepted survives
            if(!writable[fi])
            {
                if(!c.expected.empty()) fail("lost-write", "print to a stream that cannot be written returned normally");
            }
            else if(stale && fired && sf.dev.disk != want)
            {
                // glibc: a line-buffered stream whose error indicator was already set
                // gives the caller no evidence of a second failure; the statement
                // speaks of streams whose indicator is clear
                probe("second failure on a stream with a stale error indicator");
                if(!is_prefix(sf.dev.disk, want)) fail("disk-not-prefix", "torn output is not a prefix");
            }
            else if(sf.dev.disk != want)
                fail("lost-write", "print returned normally but a crash now leaves %zu of %zu bytes on the device: %s instead of %s", sf.dev.disk.size() - before.size(), want.size() - before.size(), esc(sf.dev.disk.substr(before.size())).c_str(), esc(want.substr(before.size())).c_str());
            pending[fi].clear();
            if(!fired) probe("clean print");
        }
        else
        {
            if(writable[fi] && !fired) fail("spurious-error", "print reported an error although the device accepted everything: %s", what.c_str());
            if(fired) probe("print reported a device fault");
            else probe("print reported an unwritable stream");
            // whatever is still buffered comes out now; still only a prefix
            std::fflush(sf.f);
            if(!is_prefix(sf.dev.disk, want)) fail("disk-not-prefix", "after a failed print the device holds %s, not a prefix of %s", esc(sf.dev.disk.substr(before.size())).c_str(), esc(want.substr(before.size())).c_str());
            pending[fi].clear();
            if(draw(2)) std::clearerr(sf.f);
            // bounded liveness: the fault is gone, so the next print succeeds
            if(writable[fi] && draw(2))
            {
                std::string b2 = sf.dev.disk;

                try
                {
                    Sut s;
                    papilio::println(sf.f, "again {}", 7);
                }
                catch(const std::system_error&)
                {
                    fail("no-recovery", "print still fails after the device fault was cleared");
                }
                if(sf.dev.disk != b2 + "again 7\n") fail("no-recovery", "print after a cleared fault wrote %s", esc(sf.dev.disk.substr(b2.size())).c_str());
            }
        }
        mark_state((u64)c.api * 64 + (threw ? 1 : 0) + (fired ? 2 : 0) + (writable[fi] ? 4 : 0) + c.shape * 1024);
    }
    for(int i = 0; i < nfiles; ++i) files[i].close();
}
} // namespace

const Property sim::property = {
    "C01", run, 300000, 10000000, 40'000'000,
    "one run = 1-2 simulated files, said to be terminals or not (random open mode, buffering mode and buffer size), up to 8 print/println/styled/raw-output calls with random payloads (NUL bytes, up to 5000 bytes), device faults at random byte offsets; non-trivial = at least one injected fault fired",
    "papilio print/println/os output functions, papilio formatter, glibc stdio buffering",
    "the device below stdio (fopencookie): accepts, tears or refuses writes"};
