// Element types handed through the code under test: a heap-backed item whose use-after-free, double free, leak or
// torn copy is visible to the checker, optionally with an explored throwing point in copy and move.
#pragma once
#include "../../engine/mcrt/mcrt.h"
#include <utility>
struct boom {};
inline void may_throw(char const *w) { if (mcrt_fault(w)) throw boom{}; }

template<bool C, bool A = C> // construction by copy or move, assignment
struct item_t {
	int *p = nullptr; int chk = 0;
	item_t() = default;
	explicit item_t(int v) : p(new int(v)), chk(v ^ 0x55) {}
	item_t(item_t const &o) noexcept(!C) { if constexpr (C) may_throw("copy throws"); if (o.p) { p = new int(*o.p); } chk = o.chk; }
	item_t(item_t &&o) noexcept(!C) { if constexpr (C) may_throw("move throws"); p = o.p; chk = o.chk; o.p = nullptr; o.chk = 0; }
	item_t &operator=(item_t const &o) noexcept(!A) { if constexpr (A) may_throw("copy assignment throws"); if (this == &o) return *this; delete p; p = o.p ? new int(*o.p) : nullptr; chk = o.chk; return *this; }
	item_t &operator=(item_t &&o) noexcept(!A) { if constexpr (A) may_throw("move assignment throws"); if (this == &o) return *this; delete p; p = o.p; chk = o.chk; o.p = nullptr; o.chk = 0; return *this; }
	~item_t() { delete p; p = nullptr; chk = -1; }
	int get() const { if (!p) return -3; int v = *p; return (v ^ 0x55) == chk ? v : -4; }
};
using item = item_t<false>;
using titem = item_t<true>;
