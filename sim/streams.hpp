// Stream buffers with a fault plan, for the checks of the iostream interfaces.
#pragma once
#include "sim.hpp"
#include <cstring>
#include <streambuf>
#include <string>
#include <vector>

namespace sim
{
struct BufThrow
{
    u64 id;
};

// Accepts characters until the plan says otherwise.
template <typename C>
class FaultOut : public std::basic_streambuf<C>
{
public:
    using Tr = std::char_traits<C>;
    using int_type = typename Tr::int_type;
    enum Act
    {
        none,
        refuse,
        raise
    };
    std::basic_string<C> device;
    std::vector<C> area;
    bool bulk;
    // plan
    Act act = none;
    bool once = true;
    u64 at = 0; // device position
    long sync_at = -1;
    bool sync_raise = false;
    u64 id = 0;
    // what happened
    u64 fired = 0;
    std::size_t size_at_fault = 0;

    explicit FaultOut(std::size_t buffer, bool bulk_) : area(buffer), bulk(bulk_) { reset(); }
    std::basic_string<C> all() const { return device + std::basic_string<C>(this->pbase() ? this->pbase() : device.data(), this->pbase() ? (std::size_t)(this->pptr() - this->pbase()) : 0); }
    void plan_none()
    {
        act = none;
        sync_at = -1;
        fired = 0;
    }

protected:
    void reset()
    {
        if(!area.empty()) this->setp(area.data(), area.data() + area.size());
    }
    // true: the device took the character
    bool take(C c)
    {
        if(act != none && device.size() >= at)
        {
            Act a = act;
            if(once) act = none;
            if(!fired++) size_at_fault = all().size();
            Harness h;
            fault(a == raise ? "streambuf-throws" : "streambuf-refuses");
            ev("  ! stream buffer %s at character %zu", a == raise ? "throws" : "refuses", device.size());
            if(a == raise) throw BufThrow{id};
            return false;
        }
        Harness h;
        device += c;
        return true;
    }
    bool drain()
    {
        C *b = this->pbase(), *e = this->pptr();
        if(b == e) return true;
        std::size_t done = 0, n = (std::size_t)(e - b);
        auto settle = [&]
        {
            std::memmove(b, b + done, (n - done) * sizeof(C));
            reset();
            this->pbump((int)(n - done));
        };
        try
        {
            // the character leaves the area as it enters the device
            while(done < n)
            {
                C c = b[done];
                // keep all() consistent for the fault record
                ++done;
                if(!fits(c, done, n, b))
                {
                    --done;
                    break;
                }
            }
        }
        catch(...)
        {
            --done;
            settle();
            throw;
        }
        bool ok = done == n;
        settle();
        return ok;
    }
    bool fits(C c, std::size_t done, std::size_t n, C* b)
    {
        std::size_t before = fired;
        auto fix = [&] {
            if(!before && fired) size_at_fault = device.size() + (n - done + 1);
        };
        try
        {
            bool r = take(c);
            fix();
            return r;
        }
        catch(...)
        {
            fix();
            throw;
        }
        (void)b;
    }
    int_type overflow(int_type c) override
    {
        if(!drain()) return Tr::eof();
        if(Tr::eq_int_type(c, Tr::eof())) return Tr::not_eof(c);
        if(area.empty()) return take(Tr::to_char_type(c)) ? c : Tr::eof();
        *this->pptr() = Tr::to_char_type(c);
        this->pbump(1);
        return c;
    }
    std::streamsize xsputn(const C* s, std::streamsize n) override
    {
        if(!bulk || !area.empty()) return std::basic_streambuf<C>::xsputn(s, n);
        std::streamsize k = 0;
        while(k < n && take(s[k])) ++k;
        return k;
    }
    int sync() override
    {
        if(sync_at >= 0 && sync_at-- == 0)
        {
            if(!fired++) size_at_fault = all().size();
            Harness h;
            fault("sync-fails");
            ev("  ! sync %s", sync_raise ? "throws" : "fails");
            if(sync_raise) throw BufThrow{id};
            return -1;
        }
        return drain() ? 0 : -1;
    }
};

// Delivers text in portions; ends, fails or throws at a position.
template <typename C>
class FaultIn : public std::basic_streambuf<C>
{
public:
    using Tr = std::char_traits<C>;
    using int_type = typename Tr::int_type;
    std::basic_string<C> data;
    std::vector<std::size_t> portions; // sizes, cycled
    std::size_t next = 0, pos = 0, start = 0;
    long throw_at = -1; // position at which fetching throws once
    u64 id = 0;
    u64 fired = 0;

    void reset_area() { this->setg(nullptr, nullptr, nullptr); }
    std::size_t consumed() const { return start + (std::size_t)(this->gptr() - this->eback()); }

protected:
    int_type underflow() override
    {
        if(throw_at >= 0 && (long)pos >= throw_at)
        {
            throw_at = -1;
            ++fired;
            Harness h;
            fault("streambuf-throws");
            ev("  ! stream buffer throws at character %zu", pos);
            throw BufThrow{id};
        }
        if(pos >= data.size()) return Tr::eof();
        std::size_t n = portions.empty() ? 1 : portions[next++ % portions.size()];
        if(n == 0) n = 1;
        n = std::min(n, data.size() - pos);
        if(throw_at >= 0 && pos + n > (std::size_t)throw_at) n = (std::size_t)throw_at - pos;
        start = pos;
        C* b = data.data() + pos;
        pos += n;
        this->setg(b, b, b + n);
        return Tr::to_int_type(*b);
    }
};
} // namespace sim
