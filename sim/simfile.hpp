// A FILE* whose device is simulated: glibc's real stdio buffering in front of a
// disk that accepts, tears or refuses writes as the choice sequence says.
#pragma once
#include "sim.hpp"
#ifdef SIM_SCHED
#    include "sched.hpp"
#endif
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/types.h>

namespace sim
{
// what the library learns when it asks whether the stream is a terminal
inline bool on_terminal = false;

struct Device
{
    std::string disk;         // what the OS has accepted: survives a process crash
    std::string allowed;      // disk must stay a prefix of this while a call runs
    bool check_prefix = false;
    // fault plan
    bool armed = false;
    std::size_t budget = 0;   // bytes accepted before the fault
    int err = 0;
    bool persistent = false;
    const char* kind = "";
    unsigned fired = 0;
    u64 writes = 0;

    void plan(u64 max_budget)
    {
        armed = true;
        fired = 0;
        budget = draw(2) ? skewed(max_budget) : draw(max_budget + 1);
        static const struct
        {
            int e;
            const char* k;
            bool p;
        } t[] = {{EIO, "write-EIO-once", false}, {ENOSPC, "write-ENOSPC-until-cleared", true}, {EINTR, "write-EINTR", false}, {EAGAIN, "write-EAGAIN", false}, {EPIPE, "write-EPIPE", true}};
        auto& x = t[draw(5)];
        err = x.e;
        kind = x.k;
        persistent = x.p;
    }
    void clear()
    {
        armed = false;
    }
    ssize_t write(const char* p, std::size_t n)
    {
        Harness h;
        ++writes;
        std::size_t k = n;
        bool f = false;
        if(armed && budget < n)
        {
            k = budget;
            f = true;
        }
#ifdef SIM_SCHED
        sched::point("device write");
        if(k > 1 && draw(2))
        { // a slow device: somebody else may run in the middle
            std::size_t half = 1 + draw(k - 1);
            disk.append(p, half);
            sched::point("half a device write");
            disk.append(p + half, k - half);
        }
        else
#endif
        disk.append(p, k);
        if(armed) budget -= k;
        mix(k);
#ifdef SIM_SCHED
        sched::point("device write done");
#endif
        if(check_prefix && (disk.size() > allowed.size() || std::memcmp(disk.data(), allowed.data(), disk.size())))
            flag("disk-not-prefix", "bytes reached the device that are not a prefix of what was printed: disk=%s allowed=%s", esc(disk).c_str(), esc(allowed).c_str());
        if(f)
        {
            ++fired;
            fault(kind);
            if(k) fault("torn-write");
            ev("  ! device write of %zu bytes: %zu accepted, then %s", n, k, kind);
            errno = err;
            if(!persistent) armed = false;
            return (ssize_t)k;
        }
        return (ssize_t)n;
    }
};

struct SimFile
{
    Device dev;
    std::FILE* f = nullptr;
    char* buf = nullptr;
    const char* mode = "w";

    void open(const char* m = "w")
    {
        mode = m;
        cookie_io_functions_t io{};
        io.write = [](void* c, const char* p, std::size_t n) -> ssize_t
        { return ((Device*)c)->write(p, n); };
        io.read = [](void*, char*, std::size_t) -> ssize_t
        { return 0; };
        io.close = [](void*) -> int
        { return 0; };
        f = fopencookie(&dev, m, io);
        if(!f) die("internal", "fopencookie failed");
        switch(draw(5))
        {
        case 0: break; // default full buffering
        case 1: std::setvbuf(f, nullptr, _IONBF, 0); ev("  file: unbuffered"); break;
        case 2:
        {
            std::size_t n = 1 + draw(32);
            buf = (char*)std::malloc(n);
            std::setvbuf(f, buf, _IOFBF, n);
            ev("  file: fully buffered, %zu bytes", n);
            break;
        }
        case 3:
        {
            std::size_t n = 1 + draw(256);
            buf = (char*)std::malloc(n);
            std::setvbuf(f, buf, _IOLBF, n);
            ev("  file: line buffered, %zu bytes", n);
            break;
        }
        case 4:
        {
            std::size_t n = 4096 << draw(4);
            buf = (char*)std::malloc(n);
            std::setvbuf(f, buf, _IOFBF, n);
            ev("  file: fully buffered, %zu bytes", n);
            break;
        }
        }
    }
    void close()
    {
        if(!f) return;
        dev.clear();
        dev.check_prefix = false;
        std::fclose(f);
        f = nullptr;
        std::free(buf);
        buf = nullptr;
    }
    SimFile() = default;
    SimFile(const SimFile&) = delete;
    ~SimFile() { close(); }
};
} // namespace sim

extern "C" [[gnu::weak]] int isatty(int) noexcept
{
    return sim::on_terminal;
}
