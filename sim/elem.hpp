// Element types with an audited life cycle and injected throws.
#pragma once
#include "sim.hpp"
#include <cstdlib>
#include <compare>
#include <string>
#include <type_traits>
#include <utility>

namespace sim
{
struct ElemThrow
{
    u64 at;
};

struct ElemWorld
{
    static inline long live = 0;
    static inline bool armed = false;
    static inline u64 left = 0;  // special member calls until the throw
    static inline u64 ops = 0;
    static inline u64 fired = 0;

    static void reset()
    {
        live = 0;
        armed = false;
        fired = 0;
        ops = 0;
    }
    static void arm(u64 k)
    {
        armed = true;
        left = k;
        fired = 0;
    }
    static void disarm() { armed = false; }
    static void maybe_throw(const char* what)
    {
        ++ops;
        if(!armed) return;
        if(left == 0)
        {
            armed = false;
            ++fired;
            {
                Harness h;
                fault(what);
                ev("  ! element %s throws", what);
            }
            throw ElemThrow{ops};
        }
        --left;
    }
};

constexpr int MOVED = -77777;

// NothrowMove: move construction / move assignment never throw
template <bool NothrowMove>
struct Elem
{
    static constexpr unsigned ALIVE = 0xE1E3A11Fu, DEAD = 0xDEADDEADu;
    int* p; // heap cell, so that a missing or doubled destructor is a memory error too
    unsigned magic;
    const Elem* self; // address under which it was constructed

    void born(int v)
    {
        p = (int*)std::malloc(sizeof(int));
        *p = v;
        magic = ALIVE;
        self = this;
        ++ElemWorld::live;
    }
    void check() const
    {
        if(magic != ALIVE || self != this) die("elem-not-alive", "an element was used that was not constructed at this address");
    }
    Elem() : Elem(0) {}
    Elem(int v)
    {
        ElemWorld::maybe_throw("throwing-constructor");
        born(v);
    }
    Elem(const Elem& o)
    {
        o.check();
        ElemWorld::maybe_throw("throwing-copy");
        born(*o.p);
    }
    Elem(Elem&& o) noexcept(NothrowMove)
    {
        o.check();
        if constexpr(!NothrowMove) ElemWorld::maybe_throw("throwing-move");
        born(*o.p);
        *o.p = MOVED;
    }
    Elem& operator=(const Elem& o)
    {
        check();
        o.check();
        ElemWorld::maybe_throw("throwing-copy-assign");
        *p = *o.p;
        return *this;
    }
    Elem& operator=(Elem&& o) noexcept(NothrowMove)
    {
        check();
        o.check();
        if constexpr(!NothrowMove) ElemWorld::maybe_throw("throwing-move-assign");
        if(this != &o)
        {
            *p = *o.p;
            *o.p = MOVED;
        }
        return *this;
    }
    ~Elem()
    {
        check();
        magic = DEAD;
        std::free(p);
        p = nullptr;
        --ElemWorld::live;
    }
    int get() const
    {
        check();
        return *p;
    }
    friend bool operator==(const Elem& a, const Elem& b) { return a.get() == b.get(); }
    friend bool operator<(const Elem& a, const Elem& b)
    {
        if(a.get() == b.get()) return false;
        return a.get() < b.get();
    }
};

// how the containers' element types map to model values
template <typename E>
struct Val
{
    static E make(int v) { return E(v); }
    static int of(const E& e) { return e.get(); }
    static constexpr bool nothrow_move = std::is_nothrow_move_constructible_v<E>;
    static constexpr int moved = MOVED;
};
template <>
struct Val<int>
{
    static int make(int v) { return v; }
    static int of(int v) { return v; }
    static constexpr bool nothrow_move = true;
    static constexpr int moved = 0x7fffffff;
};
template <>
struct Val<std::string>
{
    // long enough to live on the heap
    static std::string make(int v)
    {
        if(v == 0) return {}; // the value-initialised element
        return "element-number-" + std::to_string(v) + "-with-a-long-tail";
    }
    static int of(const std::string& s)
    {
        if(s.empty()) return 0;
        return std::atoi(s.c_str() + 15);
    }
    static constexpr bool nothrow_move = true;
    static constexpr int moved = 0;
};
} // namespace sim
