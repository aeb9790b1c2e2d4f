// fmt_join and the formatter-based operator<<: all short ranges, range kinds, separators, specifications, targets, failing points.
#include <dice/template-library/fmt_join.hpp>
#include <dice/template-library/format_to_ostream.hpp>
#include "../../engine/mcseq.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <fstream>
#include <iostream>
#include <list>
#include <memory>
#include <set>
#include <span>
#include <sstream>
#include <string>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
#ifndef PART
#define PART 0
#endif
static std::vector<int> fmt_log; static int fmt_throw = -1;
struct elem { int v; int *h; elem(int x) : v(x), h(new int(x)) { L.add(this, 1); } elem(elem const &o) : elem(o.v) { L.use(&o, 1); } ~elem() { L.del(this, 1); delete h; } elem &operator=(elem const &) = delete; int get() const { L.use(this, 1); return *h; } };
template<typename C> struct std::formatter<elem, C> : std::formatter<int, C> { auto format(elem const &e, auto &ctx) const { { harness h; if ((int) fmt_log.size() == fmt_throw) throw boom{}; fmt_log.push_back(e.get()); } return std::formatter<int, C>::format(e.get(), ctx); } };
struct only { elem e; only(int x) : e(x) {} only(only &&) = delete; }; // not movable
template<typename C> struct std::formatter<only, C> : std::formatter<elem, C> { auto format(only const &o, auto &ctx) const { return std::formatter<elem, C>::format(o.e, ctx); } };
// a single-pass range: move-only iterator, sentinel of another type, each element is produced once
struct single { std::vector<int> const *src; size_t pos = 0; int derefs = 0, incs = 0; single(std::vector<int> const &s) : src(&s) {} single(single &&) = default; single &operator=(single &&) = default;
	struct it { using value_type = elem; using difference_type = std::ptrdiff_t; single *o; explicit it(single *x) : o(x) {} it(it &&) = default; it &operator=(it &&) = default; elem operator*() const { ++o->derefs; if (o->pos >= o->src->size()) fail("dereferenced past the end"); return elem((*o->src)[o->pos]); } it &operator++() { ++o->incs; if (o->pos >= o->src->size()) fail("incremented past the end"); ++o->pos; return *this; } void operator++(int) { ++*this; } friend bool operator==(it const &a, std::default_sentinel_t) { return a.o->pos == a.o->src->size(); } };
	it begin() { return it(this); } std::default_sentinel_t end() const { return {}; } };
template<> inline constexpr bool std::ranges::enable_view<single> = true;

static int const alphabet[] = {0, 7, -123456};
static std::vector<int> pick(int maxlen) { int n = choose(maxlen + 1); std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(alphabet[choose(3)]); return v; }
static std::string show(std::vector<int> const &v) { std::string s; for (int x : v) s += std::to_string(x) + " "; return s; }
template<typename C> struct txt; template<> struct txt<char> { static constexpr char const *specs[] = {"{}", "{:>4}", "{:#06x}", "{0:+}"}; static constexpr char const *seps[] = {"", ",", ", ", "{}"}; }; template<> struct txt<wchar_t> { static constexpr wchar_t const *specs[] = {L"{}", L"{:>4}", L"{:#06x}", L"{0:+}"}; static constexpr wchar_t const *seps[] = {L"", L",", L", ", L"{}"}; };
template<typename C> static std::basic_string<C> one(int spec, int v) { if constexpr (std::is_same_v<C, char>) return std::vformat(txt<C>::specs[spec], std::make_format_args(v)); else return std::vformat(txt<C>::specs[spec], std::make_wformat_args(v)); }
template<typename C> static std::basic_string<C> joined(std::vector<int> const &v, int spec, std::basic_string<C> const &sep) { std::basic_string<C> r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += one<C>(spec, v[i]); } return r; }
// formats a joiner in one of several ways
template<typename C, typename J> static std::basic_string<C> render(J &j, int spec, int target) {
	auto args = [&] { if constexpr (std::is_same_v<C, char>) return std::make_format_args(j); else return std::make_wformat_args(j); }; std::basic_string_view<C> f = txt<C>::specs[spec]; std::basic_string<C> r;
	switch (target) {
	case 0: return std::vformat(f, args());
	case 1: std::vformat_to(std::back_inserter(r), f, args()); return r;
	case 2: { C buf[4096]; C *e = std::vformat_to(buf, f, args()); return {buf, e}; }
	case 3: { std::basic_ostringstream<C> o; std::vformat_to(std::ostreambuf_iterator<C>(o), f, args()); return o.str(); }
	default: { std::list<C> l; std::vformat_to(std::back_inserter(l), f, args()); return {l.begin(), l.end()}; } }
}
enum { NT = 5 };
static int spec_, target_, sep_, sepkind_, sepcheck;
template<typename C, typename R> static std::basic_string<C> with_sep(R &&range, std::basic_string<C> &sep) {
	std::basic_string<C> s = txt<C>::seps[sep_]; sep = s; static constexpr C lit[] = {C(','), C(' '), C(0)};
	auto go = [&](auto &&j) { auto &q = j; return render<C>(q, spec_, target_); };
	switch (sepkind_) {
	case 0: return go(dtl::fmt_join(std::forward<R>(range), s)); case 1: return go(dtl::fmt_join(std::forward<R>(range), std::as_const(s))); case 2: return go(dtl::fmt_join(std::forward<R>(range), std::basic_string<C>(s))); case 3: return go(dtl::fmt_join(std::forward<R>(range), std::basic_string_view<C>(s))); case 4: return go(dtl::fmt_join(std::forward<R>(range), s.c_str()));
	case 5: return go(dtl::fmt_join(std::forward<R>(range), std::list<C>(s.begin(), s.end()))); case 6: return go(dtl::fmt_join(std::forward<R>(range), s.data())); // not const
	case 7: sep = lit; return go(dtl::fmt_join(std::forward<R>(range), lit)); case 8: sep = C('-'); return go(dtl::fmt_join(std::forward<R>(range), C('-'))); case 9: { C buf[8] = {C('a'), C('b')}; sep = {C('a'), C('b')}; return go(dtl::fmt_join(std::forward<R>(range), buf)); } default: sep = std::basic_string<C>{C('x'), C(0), C('y')}; return go(dtl::fmt_join(std::forward<R>(range), sep)); }
}
enum { NSEP = 11 };
template<typename C> static void check(std::basic_string<C> const &got, std::vector<int> const &v, std::basic_string<C> const &sep, char const *what, bool log = true) { auto want = joined<C>(v, spec_, sep); if (got != want) { std::string g(got.begin(), got.end()), w(want.begin(), want.end()); fail("%s: \"%s\" instead of \"%s\"", what, g.c_str(), w.c_str()); } if (log && fmt_log != v) fail("%s: formatted the elements %s, expected %s", what, show(fmt_log).c_str(), show(v).c_str()); fmt_log.clear(); }
template<typename C, typename F> static void run_range(std::vector<int> const &v, char const *what, F mk, bool log = true) { std::basic_string<C> sep, got; { sut s; got = mk(sep); } check<C>(got, v, sep, what, log); }
template<typename C> static void kinds(int kind, std::vector<int> const &v) {
	std::vector<elem> e(v.begin(), v.end()); auto const even = [](elem const &x) { return x.get() != 7; };
	auto J = [&](auto &&r, char const *what, std::vector<int> const &want) { run_range<C>(want, what, [&](auto &sep) { return with_sep<C>(std::forward<decltype(r)>(r), sep); }); };
	std::vector<int> kept; for (int x : v) if (x != 7) kept.push_back(x); std::vector<int> rev(v.rbegin(), v.rend()), two(v.begin(), v.begin() + (long) std::min<size_t>(2, v.size()));
	switch (kind) {
	case 0: return J(e, "vector", v); case 1: return J(std::as_const(e), "const vector", v); case 2: return J(std::vector<elem>(e), "temporary vector", v); case 3: { std::list<elem> l(v.begin(), v.end()); return J(l, "list", v); } case 4: { std::forward_list<elem> l(v.begin(), v.end()); J(l, "forward_list", v); return J(std::move(l), "temporary forward_list", v); } case 5: return J(std::span<elem const>(e), "span", v);
	case 6: return J(std::deque<elem>(v.begin(), v.end()), "temporary deque", v);
	case 7: J(e | std::views::reverse, "reverse", rev); return J(e | std::views::take(2), "take", two); case 8: J(e | std::views::filter(even), "filter", kept); { auto f = e | std::views::filter(even); J(f, "an lvalue filter", kept); } return J(std::vector<elem>(e) | std::views::filter(even), "filter of a temporary", kept);
	case 9: return J(v | std::views::transform([](int x) { return elem(x); }), "transform to values", v); case 10: { single s(v); single *p = &s; J(std::ranges::subrange(p->begin(), std::default_sentinel), "single-pass", v); MC_CHECK(s.derefs == (int) v.size() && s.incs == (int) v.size(), "single-pass range: %d reads, %d steps for %zu elements", s.derefs, s.incs, v.size()); return J(single(v), "single-pass view", v); }
	case 11: { std::basic_ostringstream<char> os; for (int x : v) os << x << ' '; std::istringstream is(os.str()); run_range<C>(v, "istream", [&](auto &sep) { return with_sep<C>(std::views::istream<int>(is), sep); }, false); return; }
	case 12: { std::list<only> l; for (int x : v) l.emplace_back(x); J(l, "elements that cannot be moved", v); return J(std::move(l), "a temporary of elements that cannot be moved", v); }
	case 13: { std::vector<std::unique_ptr<elem>> p; for (int x : v) p.push_back(std::make_unique<elem>(x)); return J(std::move(p) | std::views::transform([](auto const &x) -> elem const & { return *x; }), "a move-only range", v); }
	case 14: { std::vector<std::vector<int>> nested{v, {1}, v}; std::basic_string<C> sep, in{C('+')}; auto j = dtl::fmt_join(nested | std::views::transform([](auto const &x) { return dtl::fmt_join(x, C('+')); }), C(';')); auto got = render<C>(j, spec_, target_); auto a = joined<C>(v, spec_, in); auto want = a + C(';') + one<C>(spec_, 1) + C(';') + a; MC_CHECK(got == want, "nested joins"); return; }
	case 15: { std::vector<bool> b; std::basic_string<C> sep, w; for (int x : v) b.push_back(x == 7); if (spec_ == 1 || spec_ == 3) return; bool first = true; for (bool x : b) { if (!first) w += C(','); first = false; if (spec_ == 0) { char const *t = x ? "true" : "false"; w.append(t, t + strlen(t)); } else { bool y = x; int z = y; w += one<C>(2, z); } } auto j = dtl::fmt_join(b, C(',')); MC_CHECK(render<C>(j, spec_, target_) == w, "vector<bool>"); auto j2 = dtl::fmt_join(std::vector<bool>(b), C(',')); MC_CHECK(render<C>(j2, spec_, target_) == w, "temporary vector<bool>"); return; }
	case 16: { auto j = dtl::fmt_join(std::vector<elem>(e), txt<C>::seps[2]); fmt_log.clear(); for (int k = 0; k < 3; ++k) check<C>(render<C>(j, spec_, k), v, txt<C>::seps[2], "the same joiner again"); auto k = std::move(j); check<C>(render<C>(k, spec_, target_), v, txt<C>::seps[2], "a moved joiner"); auto r = dtl::fmt_join(e, txt<C>::seps[1]); auto r2 = r; check<C>(render<C>(std::as_const(r2), spec_, 0), v, txt<C>::seps[1], "a const copy"); return; }
	default: { elem arr[] = {1, 2, 3}; J(arr, "C array", {1, 2, 3}); std::array<elem, 2> a2{elem(4), elem(5)}; J(a2, "std::array", {4, 5}); auto il = dtl::fmt_join({elem(8), elem(9), elem(8)}, txt<C>::seps[2]); fmt_log.clear(); check<C>(render<C>(il, spec_, target_), {8, 9, 8}, txt<C>::seps[2], "initializer list"); std::initializer_list<bool> bl{true, false}; auto bj = dtl::fmt_join(bl, C(',')); if (spec_ == 2) { auto got = render<C>(bj, 2, target_); MC_CHECK(got == one<C>(2, 1) + C(',') + one<C>(2, 0), "initializer list of bool"); } J(std::views::empty<elem>, "empty", {}); J(std::views::single(elem(6)), "single", {6}); return; } }
}
enum { NK = 18 };
template<typename C> static void join() {
	L.reset(); fmt_log.clear(); fmt_throw = -1; int kind = choose(NK); sepkind_ = kind >= 14 && kind < 17 ? 0 : choose(NSEP); sep_ = sepkind_ < 7 && sepkind_ != 7 && !(kind >= 14 && kind < 17) ? choose(4) : 2; spec_ = choose(4); target_ = choose(NT); auto v = kind == 17 ? std::vector<int>{} : pick(THOROUGH ? 4 : 3);
	op("range kind %d of [%s], separator kind %d text %d, specification %d, target %d", kind, show(v).c_str(), sepkind_, sep_, spec_, target_); state(mix(mix((u64) kind * 100 + (u64) sepkind_, (u64) (sep_ * 100 + spec_ * 10 + target_)), hash_str(show(v)))); kinds<C>(kind, v); L.expect(0);
}
// an element's formatter throws: everything before was formatted once, nothing leaks
static void throwing() { L.reset(); fmt_log.clear(); auto v = pick(4); fmt_throw = choose(5); int kind = choose(3); op("[%s], formatter call %d throws, range %d", show(v).c_str(), fmt_throw, kind); state(mix(hash_str(show(v)), (u64) (fmt_throw * 3 + kind))); bool ex = false; std::string got;
	{ std::vector<elem> e(v.begin(), v.end()); try { sut s; if (kind == 0) got = std::format("{}", dtl::fmt_join(e, ", ")); else if (kind == 1) got = std::format("{}", dtl::fmt_join(std::vector<elem>(e), ',')); else got = std::format("{}", dtl::fmt_join(single(v), std::string(", "))); } catch (boom const &) { ex = true; } }
	MC_CHECK(ex == (fmt_throw < (int) v.size()), "an exception of the element's formatter was lost"); auto w = v; if (ex) w.resize((size_t) fmt_throw); MC_CHECK(fmt_log == w, "elements formatted before the exception"); fmt_throw = -1; fmt_log.clear(); L.expect(0); }
static void misc() { int k = choose(4); op("case %d", k); state((u64) k); L.reset(); fmt_log.clear(); std::vector<int> v{3, 14, 159};
	if (k == 0) { MC_CHECK(std::format("[{:>{}}|{}]", dtl::fmt_join(v, ", "), 5, 8) == "[    3,    14,   159|8]", "dynamic width"); MC_CHECK(std::format("{1:<{0}}|", 4, dtl::fmt_join(v, '.')) == "3   .14  .159 |", "explicit indices"); MC_CHECK(std::format("{}{}{}", dtl::fmt_join(v, "-"), dtl::fmt_join(std::vector<int>{}, "-"), dtl::fmt_join(v, "+")) == "3-14-1593+14+159", "several joiners"); }
	if (k == 1) for (size_t n = 0; n < 12; ++n) { char buf[16] = {}; auto r = std::format_to_n(buf, (std::ptrdiff_t) n, "{}", dtl::fmt_join(v, ", ")); std::string full = "3, 14, 159"; MC_CHECK(r.size == 10 && std::string(buf) == full.substr(0, n), "format_to_n of %zu", n); MC_CHECK(std::formatted_size("{}", dtl::fmt_join(v, ", ")) == 10, "formatted_size"); }
	if (k == 2) for (size_t len : {254u, 255u, 256u, 257u, 511u, 512u, 513u, 4096u}) { std::vector<std::string> w{std::string(len, 'a'), "", std::string(len, 'b')}; std::string sep(len - 200, '/'); MC_CHECK(std::format("{}", dtl::fmt_join(w, sep)) == w[0] + sep + sep + w[2], "long texts of %zu", len); MC_CHECK(std::format("{:_^6}", dtl::fmt_join(std::vector<std::string>{"", "ab"}, "|")) == "______|__ab__", "strings with a fill"); }
	if (k == 3) { bool ex = false; try { auto j = dtl::fmt_join(v, ","); (void) std::vformat("{:q}", std::make_format_args(j)); } catch (std::format_error const &) { ex = true; } MC_CHECK(ex, "a specification that the elements do not have is accepted"); ex = false; try { auto j = dtl::fmt_join(std::vector<int>{}, ","); (void) std::vformat("{:q}", std::make_format_args(j)); } catch (std::format_error const &) { ex = true; } MC_CHECK(ex, "a wrong specification for an empty range is accepted"); using JJ = decltype(dtl::fmt_join(v, ",")); using JF = decltype(dtl::fmt_join(v | std::views::filter([](int) { return true; }), std::string())); static_assert(std::formattable<JJ, char> && std::formattable<JJ const, char> && std::formattable<JF, char>); } }

// ---- operator<< ----
struct text { std::string const *s; int throw_after = -1; }; template<typename C> struct std::formatter<text, C> { constexpr auto parse(auto &c) { return c.begin(); } auto format(text const &t, auto &ctx) const { auto o = ctx.out(); int n = 0; for (char ch : *t.s) { if (n++ == t.throw_after) throw boom{}; *o++ = C(ch); } if (n == t.throw_after) throw boom{}; return o; } };
struct own { int x; }; template<typename C> struct std::formatter<own, C> : std::formatter<int, C> { auto format(own const &o, auto &ctx) const { return std::formatter<int, C>::format(o.x, ctx); } }; template<typename C, typename T> std::basic_ostream<C, T> &operator<<(std::basic_ostream<C, T> &s, own const &) { return s << C('O'); }
namespace other { struct ns { int x; }; struct plain { int x; }; }
template<typename C> struct std::formatter<other::ns, C> : std::formatter<int, C> { auto format(other::ns const &o, auto &ctx) const { return std::formatter<int, C>::format(o.x, ctx); } };
struct my_traits : std::char_traits<char> {};
struct to_int { operator int() const { return 31; } }; template<> struct std::formatter<to_int> : std::formatter<int> { auto format(to_int, auto &ctx) const { return std::formatter<int>::format(32, ctx); } };
template<typename C, typename T = std::char_traits<C>> struct limited : std::basic_streambuf<C, T> { std::basic_string<C, T> got; size_t cap; int calls = 0; explicit limited(size_t c) : cap(c) {} typename T::int_type overflow(typename T::int_type c) override { if (got.size() >= cap) return T::eof(); got += T::to_char_type(c); return c; } };
template<typename C, typename T = std::char_traits<C>> static void stream_text() {
	static char const abc[] = {'a', '%', '{', '}', '\n', '\0', ' '}; int n = choose(THOROUGH ? 5 : 4); std::string s; for (int i = 0; i < n; ++i) s += abc[choose(7)];
	int mode = choose(3), extra = choose(4); op("text of %d characters, width mode %d, extra %d", n, mode, extra); state(mix(hash_str(s), (u64) (mode * 10 + extra)));
	std::basic_string<C, T> want; for (char ch : s) want += C(ch);
	std::basic_ostringstream<C, T> o; if (mode) { o.width(mode == 1 ? 9 : 1); o.fill(C('#')); } if (extra & 1) o.setf(std::ios::hex | std::ios::left | std::ios::showbase, std::ios::basefield | std::ios::adjustfield | std::ios::showbase); text t{&s}; std::basic_ostream<C, T> &r = (o << t); MC_CHECK(&r == &o, "another stream is returned"); MC_CHECK(o.str() == want && o.good(), "the text is not printed exactly: %zu characters for %zu", o.str().size(), want.size());
	if (extra & 2) { o.width(0); std::basic_ostream<C, T> &b = o; b << t << C('-') << std::as_const(t) << text{&s}; want = want + want + C('-') + want + want; MC_CHECK(o.str() == want, "chained output"); }
	// a buffer that accepts only the first cap characters
	for (size_t cap = 0; cap <= s.size() + 1; ++cap) { limited<C, T> b(cap); std::basic_ostream<C, T> os(&b); os << t; std::basic_string<C, T> w; for (char ch : s) w += C(ch); MC_CHECK(b.got == w.substr(0, cap), "a limited buffer got other text"); MC_CHECK(os.bad() == (cap < s.size()), "the stream is %s after writing %zu characters to a buffer that takes %zu", os.bad() ? "bad" : "good", s.size(), cap);
		bool bad = os.bad(); size_t had = b.got.size(); b.cap = 100; os << t; MC_CHECK(b.got.size() == (bad ? had : had + s.size()), "writing to a stream that has failed"); }
	for (auto st : {std::ios::failbit, std::ios::badbit, std::ios::eofbit}) { limited<C, T> b(50); std::basic_ostream<C, T> os(&b); os.setstate(st); os << t; MC_CHECK(b.got.empty() && !os.good(), "text is written to a stream that is not good"); os.clear(); os << t; MC_CHECK(b.got.size() == s.size() && os.good(), "output after clear"); }
	{ limited<C, T> b(0); std::basic_ostream<C, T> os(&b); os.exceptions(std::ios::badbit); bool ex = false; try { os << t; } catch (std::ios::failure const &) { ex = true; } MC_CHECK(ex == !s.empty(), "a stream that throws on failure did not"); }
	for (int k = 0; k <= n; ++k) { std::basic_ostringstream<C, T> os; bool ex = false; try { os << text{&s, k}; } catch (boom const &) { ex = true; } MC_CHECK(ex || os.bad(), "an exception of the formatter is lost"); std::basic_string<C, T> w; for (char ch : s) w += C(ch); MC_CHECK(w.starts_with(os.str()), "text after an exception"); }
	{ std::basic_ostringstream<C, T> a; limited<C, T> b(50); std::basic_ostream<C, T> os(&b); struct probe : std::basic_stringbuf<C, T> { int syncs = 0; int sync() override { ++syncs; return 0; } } pb; std::basic_ostream<C, T> tied(&pb); os.tie(&tied); os << t; MC_CHECK(pb.syncs == 1, "a tied stream was flushed %d times", pb.syncs); }
}
static void stream_types() { int k = choose(8); op("case %d", k); state((u64) k); std::ostringstream o; std::wostringstream w; std::string s = "hi";
	switch (k) { case 0: o << 42 << ' ' << std::string("x") << ' ' << 1.5 << "y"; MC_CHECK(o.str() == "42 x 1.5y", "types with their own operator"); break; case 1: o << own{3}; w << own{3}; MC_CHECK(o.str() == "O" && w.str() == L"O", "an own operator<< is preferred"); break;
	case 2: o << other::ns{5}; w << other::ns{6}; MC_CHECK(o.str() == "5" && w.str() == L"6", "a type in another namespace"); break; case 3: { std::vector<int> v{1, 2}; o << dtl::fmt_join(v, ", "); w << dtl::fmt_join(v, std::wstring(L"; ")); MC_CHECK(o.str() == "1, 2" && w.str() == L"1; 2", "a joiner"); break; }
	case 4: for (size_t len : {255u, 256u, 257u, 511u, 512u, 513u, 5000u}) { std::string big(len, 'q'); std::ostringstream b; b << text{&big}; MC_CHECK(b.str() == big, "a long text of %zu", len); limited<char> lb(len - 1); std::ostream os(&lb); os << text{&big}; MC_CHECK(os.bad() && lb.got.size() == len - 1, "a long text to a short buffer"); } break;
	case 5: o << to_int{}; MC_CHECK(o.str() == "31", "an implicit conversion to a streamable type is still used"); break; case 6: { std::ofstream closed; closed << text{&s}; MC_CHECK(!closed.good(), "writing to a closed file goes unnoticed"); std::ostream none(nullptr); none << text{&s}; MC_CHECK(none.bad(), "a stream without a buffer"); break; }
	case 7: static_assert(dtl::is_ostreamable_v<int, char, std::char_traits<char>> && dtl::is_ostreamable_v<std::string, char, std::char_traits<char>> && dtl::is_ostreamable_v<own, wchar_t, std::char_traits<wchar_t>> && !dtl::is_ostreamable_v<other::plain, char, std::char_traits<char>> && !dtl::is_ostreamable_v<std::string, wchar_t, std::char_traits<wchar_t>>); break; } }
int main(int argc, char **argv) {
	std::vector<scenario> s;
#if PART == 0
	s = split({{"join", join<char>}}, 2); s.push_back({"throwing", throwing}); s.push_back({"misc", misc});
#elif PART == 1
	s = split({{"wide join", join<wchar_t>}}, 2);
#else
	s = split({{"stream", stream_text<char>}, {"wide stream", stream_text<wchar_t>}, {"own traits", stream_text<char, my_traits>}}, 2); s.push_back({"stream types", stream_types});
#endif
	return run(argc, argv, s);
}
