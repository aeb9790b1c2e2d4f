// Brute-force linearizability check of a small complete history against a sequential specification.
// Spec: struct { bool apply(mcrt::event const &); auto operator<=>; } - apply returns whether the event's result is legal here.
#pragma once
#include "mcrt/mcrt.h"
#include <set>
#include <utility>
#include <vector>
namespace lin {
template<typename Spec>
struct checker {
	std::vector<mcrt::event> h;
	std::set<std::pair<unsigned long, Spec>> seen;
	bool dfs(unsigned long done, Spec const &s) {
		if (done == (1ul << h.size()) - 1) return true;
		if (!seen.insert({done, s}).second) return false;
		int min_ret = 1 << 30; // an op may go next only if no other pending op returned before its call
		for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].ret_t < min_ret) min_ret = h[i].ret_t;
		for (size_t i = 0; i < h.size(); ++i) {
			if (done >> i & 1 || h[i].call_t > min_ret) continue;
			for (Spec const &n : s.next(h[i])) if (dfs(done | 1ul << i, n)) return true;
		}
		return false;
	}
};
template<typename Spec>
bool linearizable(mcrt::event const *h, int n, Spec const &init) {
	checker<Spec> c; for (int i = 0; i < n; ++i) if (h[i].ret_t >= 0) c.h.push_back(h[i]); // calls still blocked have had no effect
	return c.dfs(0, init);
}
} // namespace lin
