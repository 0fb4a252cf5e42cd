// An element type whose objects know whether they are alive and whether they have been moved from.
#pragma once
#include "vf.h"
static int64_t alive_;
template <bool NX> struct TrT {
    uint64_t v; TrT const* self;
    void ok() const { vf_assert(self == this, "P04,P03,P22: only living elements are read, assigned or destroyed"); }
    TrT() : v(0), self(this) { ++alive_; }
    explicit TrT(uint64_t x) : v(x), self(this) { ++alive_; }
    TrT(TrT const& o) : v(o.v), self(this) { o.ok(); ++alive_; }
    TrT(TrT&& o) noexcept(NX) : v(o.v), self(this) { o.ok(); o.v = 0xDEAD; ++alive_; }
    TrT& operator=(TrT const& o) { ok(); o.ok(); v = o.v; return *this; }
    TrT& operator=(TrT&& o) noexcept(NX) { ok(); o.ok(); uint64_t x = o.v; o.v = 0xDEAD; v = x; return *this; }
    ~TrT() { ok(); self = nullptr; --alive_; }
    friend bool operator<(TrT const& a, TrT const& b) { a.ok(); b.ok(); return a.v < b.v; }
};
