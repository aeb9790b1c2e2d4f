// opt_min / opt_max / opt_minmax and their range forms against the plain minimum/maximum of the present values.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/opt_minmax.hpp>
#include <array>
#include <forward_list>
#include <list>
#include <memory>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
// an element: key and position, so that ties can be told apart; neither default constructible nor comparable by itself
struct tagged { int key, id; tagged(int k, int i) : key(k), id(i) { L.add(this, 1); } tagged(tagged const &o) : key(o.key), id(o.id) { L.use(&o, 1); L.add(this, 1); } tagged &operator=(tagged const &o) { L.use(this, 1); L.use(&o, 1); key = o.key; id = o.id; return *this; } ~tagged() { L.del(this, 1); } };
struct by_key { bool operator()(tagged const &a, tagged const &b) const { return a.key < b.key; } };
struct by_key_desc { bool operator()(tagged const &a, tagged const &b) const { return a.key > b.key; } };
struct parity { bool operator()(tagged const &a, tagged const &b) const { return a.key % 2 < b.key % 2; } };
static bool tagged_less_fn(tagged const &a, tagged const &b) { return a.key < b.key; }
using opt = std::optional<tagged>;
static std::string txt(std::vector<int> const &s) { std::string r; for (int x : s) r += x < 0 ? "-" : std::to_string(x); return "[" + r + "]"; }
static std::vector<int> pick(int n, int keys, bool absent) { std::vector<int> s; int l = choose(n + 1); for (int i = 0; i < l; ++i) s.push_back(choose(keys + absent) - absent); op("%s", txt(s).c_str()); state(txt(s)); return s; }
template<typename Cmp> static int want_min(std::vector<int> const &s, Cmp cmp) { int b = -1; for (int i = 0; i < (int) s.size(); ++i) if (s[(size_t) i] >= 0 && (b < 0 || cmp(tagged(s[(size_t) i], i), tagged(s[(size_t) b], b)))) b = i; return b; }
template<typename Cmp> static int want_max(std::vector<int> const &s, Cmp cmp) { int b = -1; for (int i = 0; i < (int) s.size(); ++i) if (s[(size_t) i] >= 0 && (b < 0 || cmp(tagged(s[(size_t) b], b), tagged(s[(size_t) i], i)))) b = i; return b; }
static int id(opt const &o) { return o ? o->id : -1; }
#define SAY(what, got, want) "%s of %s: element %d, expected %d", what, txt(s).c_str(), got, want
template<typename R, typename Cmp> static void mm(char const *what, R const &got, std::vector<int> const &s, Cmp cmp) {
	int lo = want_min(s, cmp), hi = want_max(s, cmp); MC_CHECK(got.has_value() == (lo >= 0), "%s of %s: %s", what, txt(s).c_str(), got ? "present" : "absent"); if (!got) return;
	MC_CHECK(got->min.id == lo && got->min.key == s[(size_t) lo], SAY(what, got->min.id, lo));
	// among equivalent maxima the standard functions differ (max takes the first, minmax the last)
	MC_CHECK(got->max.id >= 0 && got->max.id < (int) s.size() && got->max.key == s[(size_t) got->max.id] && !cmp(got->max, tagged(s[(size_t) hi], hi)) && !cmp(tagged(s[(size_t) hi], hi), got->max), SAY(what, got->max.id, hi));
}
template<typename M, typename Cmp> static void forms(M make, std::vector<int> const &s, Cmp cmp, char const *kind) {
	int lo = want_min(s, cmp), hi = want_max(s, cmp); (void) kind;
	{ auto &&r = make(); opt o = dtl::opt_min_element(r, cmp); MC_CHECK(id(o) == lo, SAY("opt_min_element", id(o), lo)); } { auto &&r = make(); opt o = dtl::opt_min_element(std::ranges::begin(r), std::ranges::end(r), cmp); MC_CHECK(id(o) == lo, SAY("opt_min_element(first, last)", id(o), lo)); } { auto &&r = make(); opt o = r | dtl::opt_min_element(cmp); MC_CHECK(id(o) == lo, SAY("| opt_min_element", id(o), lo)); }
	{ auto &&r = make(); opt o = dtl::opt_max_element(r, cmp); MC_CHECK(id(o) == hi, SAY("opt_max_element", id(o), hi)); } { auto &&r = make(); opt o = dtl::opt_max_element(std::ranges::begin(r), std::ranges::end(r), cmp); MC_CHECK(id(o) == hi, SAY("opt_max_element(first, last)", id(o), hi)); } { auto &&r = make(); opt o = r | dtl::opt_max_element(cmp); MC_CHECK(id(o) == hi, SAY("| opt_max_element", id(o), hi)); }
	{ auto &&r = make(); mm("opt_minmax_element", dtl::opt_minmax_element(r, cmp), s, cmp); } { auto &&r = make(); mm("opt_minmax_element(first, last)", dtl::opt_minmax_element(std::ranges::begin(r), std::ranges::end(r), cmp), s, cmp); } { auto &&r = make(); mm("| opt_minmax_element", r | dtl::opt_minmax_element(cmp), s, cmp); }
}
template<typename Cmp> static void lists(int n, Cmp cmp) {
	std::vector<int> s = pick(n, 3, true); int lo = want_min(s, cmp), hi = want_max(s, cmp); bool all_present = std::find(s.begin(), s.end(), -1) == s.end();
	{
		std::vector<opt> v; for (int i = 0; i < (int) s.size(); ++i) { if (s[(size_t) i] < 0) v.emplace_back(); else v.emplace_back(std::in_place, s[(size_t) i], i); } std::vector<opt> const cv = v;
		forms([&]() -> auto & { return v; }, s, cmp, "vector"); forms([&]() -> auto & { return cv; }, s, cmp, "const vector"); { std::forward_list<opt> l(v.begin(), v.end()); forms([&]() -> auto & { return l; }, s, cmp, "forward_list"); } forms([&] { return v | std::views::transform([](opt const &x) { return x; }); }, s, cmp, "transform"); { size_t i = 0; struct nx { std::vector<opt> const *v; size_t *i; using value_type = opt; std::optional<opt> next() { if (*i >= v->size()) return std::nullopt; return std::optional<opt>(std::in_place, (*v)[(*i)++]); } }; forms([&] { i = 0; return dtl::next_to_view<nx>(nx{&v, &i}); }, s, cmp, "single pass"); }
		for (size_t i = 0; i < s.size(); ++i) MC_CHECK(v[i].has_value() == (s[i] >= 0) && (!v[i] || (v[i]->key == s[i] && v[i]->id == (int) i)), "the input was modified");
		if (all_present) { std::vector<tagged> p; for (int i = 0; i < (int) s.size(); ++i) p.emplace_back(s[(size_t) i], i); std::list<tagged> l(p.begin(), p.end()); forms([&]() -> auto & { return p; }, s, cmp, "plain vector"); forms([&]() -> auto & { return std::as_const(l); }, s, cmp, "plain list"); }
		auto il = [&](std::initializer_list<opt> i) { opt o = dtl::opt_min(i, cmp); MC_CHECK(id(o) == lo, SAY("opt_min{}", id(o), lo)); o = dtl::opt_max(i, cmp); MC_CHECK(id(o) == hi, SAY("opt_max{}", id(o), hi)); mm("opt_minmax{}", dtl::opt_minmax(i, cmp), s, cmp); };
		switch (s.size()) { case 0: il({}); break; case 1: il({v[0]}); break; case 2: il({v[0], v[1]}); break; case 3: il({v[0], v[1], v[2]}); break; case 4: il({v[0], v[1], v[2], v[3]}); break; case 5: il({v[0], v[1], v[2], v[3], v[4]}); break; case 6: il({v[0], v[1], v[2], v[3], v[4], v[5]}); break; default: break; }
		if (s.size() == 2) {
			opt o = dtl::opt_min(v[0], v[1], cmp); MC_CHECK(id(o) == lo, SAY("opt_min(a, b)", id(o), lo)); o = dtl::opt_max(v[0], v[1], cmp); MC_CHECK(id(o) == hi, SAY("opt_max(a, b)", id(o), hi)); mm("opt_minmax(a, b)", dtl::opt_minmax(v[0], v[1], cmp), s, cmp);
			if (all_present) { o = dtl::opt_min<tagged>(*v[0], *v[1], cmp); MC_CHECK(id(o) == lo, SAY("opt_min of plain values", id(o), lo)); o = dtl::opt_max<tagged>(*v[0], *v[1], cmp); MC_CHECK(id(o) == hi, SAY("opt_max of plain values", id(o), hi)); mm("opt_minmax of plain values", dtl::opt_minmax<tagged>(*v[0], *v[1], cmp), s, cmp); }
			if (s[0] < 0) { o = dtl::opt_min<tagged>(std::nullopt, v[1], cmp); MC_CHECK(id(o) == lo, SAY("opt_min(nullopt, b)", id(o), lo)); o = dtl::opt_max<tagged>(std::nullopt, v[1], cmp); MC_CHECK(id(o) == hi, SAY("opt_max(nullopt, b)", id(o), hi)); mm("opt_minmax(nullopt, b)", dtl::opt_minmax<tagged>(std::nullopt, v[1], cmp), s, cmp); }
			if (s[1] < 0) { o = dtl::opt_min<tagged>(v[0], std::nullopt, cmp); MC_CHECK(id(o) == lo, SAY("opt_min(a, nullopt)", id(o), lo)); o = dtl::opt_max<tagged>(v[0], std::nullopt, cmp); MC_CHECK(id(o) == hi, SAY("opt_max(a, nullopt)", id(o), hi)); }
		}
	}
	L.expect(0); observe(mix((u64) lo, (u64) hi));
}
// default comparison, several value types, including bool proxies and NaN-free doubles
template<typename T> static T val(int k) { if constexpr (std::is_same_v<T, std::string>) return std::to_string(k) + " and some text that does not fit the small buffer"; else return static_cast<T>(k - 1); }
template<typename T> static void defaults(int n) {
	int keys = std::is_same_v<T, bool> ? 1 : 3; std::vector<int> s = pick(n, keys + (keys == 1), true); std::vector<std::optional<T>> v; std::vector<T> present; std::optional<T> lo, hi;
	for (int x : s) { if (x < 0) v.emplace_back(); else { T t = keys == 1 ? static_cast<T>(static_cast<bool>(x) ? val<T>(2) : val<T>(1)) : val<T>(x); v.emplace_back(t); present.push_back(t); if (!lo || t < *lo) lo = t; if (!hi || *hi < t) hi = t; } }
	MC_CHECK(dtl::opt_min_element(v) == lo && (v | dtl::opt_min_element()) == lo && dtl::opt_min_element(v.begin(), v.end()) == lo, "opt_min_element of %s", txt(s).c_str()); MC_CHECK(dtl::opt_max_element(v) == hi && (v | dtl::opt_max_element()) == hi && dtl::opt_max_element(v.begin(), v.end()) == hi, "opt_max_element of %s", txt(s).c_str());
	MC_CHECK(dtl::opt_min_element(present) == lo && dtl::opt_max_element(present) == hi && (present | dtl::opt_max_element()) == hi, "opt_min_element/opt_max_element of present values of %s", txt(s).c_str());
	MC_CHECK(dtl::opt_min_element(v, std::ranges::greater{}) == hi && dtl::opt_max_element(v, std::greater<>{}) == lo && dtl::opt_min_element(v, std::greater<T>{}) == hi, "with greater, of %s", txt(s).c_str());
	auto chk = [&](auto r, std::optional<T> const &l, std::optional<T> const &h) { static_assert(std::is_same_v<decltype(r), std::optional<dtl::opt_minmax_result<T>>>); MC_CHECK(r.has_value() == l.has_value() && (!r || (r->min == *l && r->max == *h)), "opt_minmax of %s", txt(s).c_str()); };
	chk(dtl::opt_minmax_element(v), lo, hi); chk(v | dtl::opt_minmax_element(), lo, hi); chk(dtl::opt_minmax_element(present), lo, hi); chk(dtl::opt_minmax_element(v, std::greater<>{}), hi, lo);
	if (s.size() == 2) { MC_CHECK(dtl::opt_min(v[0], v[1]) == lo && dtl::opt_max(v[0], v[1]) == hi && dtl::opt_min<T>({v[0], v[1]}) == lo && dtl::opt_max<T>({v[0], v[1]}) == hi && dtl::opt_min(v[0], v[1], std::greater<>{}) == hi, "opt_min/opt_max of %s", txt(s).c_str()); chk(dtl::opt_minmax(v[0], v[1]), lo, hi); chk(dtl::opt_minmax<T>({v[0], v[1]}), lo, hi); }
	if (s.size() == 3) { MC_CHECK(dtl::opt_min<T>({v[0], v[1], v[2]}) == lo && dtl::opt_max<T>({v[0], v[1], v[2]}) == hi, "opt_min/opt_max list of %s", txt(s).c_str()); chk(dtl::opt_minmax<T>({v[0], v[1], v[2]}), lo, hi); if (s[1] < 0) { MC_CHECK(dtl::opt_min<T>({v[0], std::nullopt, v[2]}) == lo && dtl::opt_max<T>({v[0], std::nullopt, v[2]}) == hi, "opt_min/opt_max list with nullopt of %s", txt(s).c_str()); } }
	observe(lo ? 1 + present.size() : 0);
}
static_assert(dtl::opt_min<int>({3, std::nullopt, 1, 2}) == 1 && dtl::opt_max<int>(std::nullopt, 4) == 4 && !dtl::opt_max<int>(std::nullopt, std::nullopt) && dtl::opt_minmax<int>({3, std::nullopt, 1})->max == 3);
static_assert(dtl::opt_min_element(std::array{3, 1, 2}) == 1 && dtl::opt_max_element(std::array<std::optional<int>, 3>{}) == std::nullopt);
static_assert(std::is_same_v<decltype(dtl::opt_min_element(std::array{3, 1, 2})), std::optional<int>> && std::is_same_v<decltype(dtl::opt_max_element(std::array<std::optional<int>, 2>{})), std::optional<int>>);
int main(int argc, char **argv) {
	int const n = THOROUGH ? 6 : 5; std::vector<scenario> v;
	v.push_back({"lists,less", [=] { lists(n, by_key{}); }}); v.push_back({"lists,greater", [=] { lists(n, by_key_desc{}); }}); v.push_back({"lists,weak", [=] { lists(n, parity{}); }}); v.push_back({"lists,function", [=] { lists(n - 1, &tagged_less_fn); }});
	v.push_back({"default,int", [=] { defaults<int>(n + 1); }}); v.push_back({"default,unsigned", [=] { defaults<unsigned>(n); }}); v.push_back({"default,string", [=] { defaults<std::string>(n); }}); v.push_back({"default,double", [=] { defaults<double>(n); }}); v.push_back({"default,bool", [=] { defaults<bool>(n + 1); }});
	return run(argc, argv, split(v, 2));
}
