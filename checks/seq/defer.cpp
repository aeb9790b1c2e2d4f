// scope guards: every small program of nested scopes, exits and guards, against an interpreter of the language rules.
#include "../../engine/mcseq.hpp"
#include <dice/template-library/defer.hpp>
#include <memory>
namespace dtl = dice::template_library;
using namespace mcs;
#ifndef THOROUGH
#define THOROUGH 0
#endif
// statements: guards (always / fail / success / success that throws / fail with nested try), throw, return, break, continue, write,
// a guard that lives in a slot of the enclosing owner and is destroyed with it or when replaced; and compound ones: owner, scope, try, try with a scope in the handler, destructor that runs a scope, loop, function call, rethrow in the handler
enum kind { GUARD_A, GUARD_F, GUARD_S, GUARD_SX, GUARD_AB, WRITE, THROW, RET, BRK, CONT, SCOPE, TRY, HANDLER, DTOR, LOOP, CALL, RETHROW, OWNER, OWN_F, OWN_S, KINDS };
static char const *names[] = {"always", "fail", "success", "success-throws", "always-runs-block", "write", "throw", "return", "break", "continue", "scope", "try", "handler", "dtor", "loop", "call", "rethrow", "owner", "owned-fail", "owned-success"};
struct node { kind k; int id; std::vector<node> a; int form; };
using block = std::vector<node>;
struct event { int what, id, value; bool operator==(event const &) const = default; };
struct log_t { std::vector<event> v; int var = 0; void add(int w, int id) { harness h; v.push_back({w, id, var}); } };
static log_t *LG; static int next_id;
static std::string txt(block const &b) { std::string s; for (auto const &n : b) { if (!s.empty()) s += "; "; s += names[n.k]; s += std::to_string(n.id); if ((n.k >= SCOPE && n.k < OWN_F) || n.k == GUARD_AB) s += "{" + txt(n.a) + "}"; } return s; }
static int BUDGET;
static block gen(int &budget, bool loop, bool in_guard, bool owner = false) {
	block b;
	while (budget > 0) {
		int k = choose(owner ? KINDS + 1 : OWNER + 2); if (k == (owner ? KINDS : OWNER + 1)) break;
		if ((k == BRK || k == CONT) && !loop) break; // the same program as an ended block
		if (k == GUARD_AB && in_guard) break;
		--budget; node n{(kind) k, next_id++, {}, 0};
		if (k <= GUARD_S) n.form = choose(BUDGET >= 4 ? 2 : 3);
		bool stop = k == THROW || k == RET || k == BRK || k == CONT;
		if (k >= SCOPE && k < OWN_F) { n.a = gen(budget, k == CALL || k == DTOR || k == HANDLER ? false : loop || k == LOOP, in_guard, owner || k == OWNER); if (n.a.empty() && k != TRY) { b.push_back(n); break; } }
		else if (k == GUARD_AB) { n.a = gen(budget, false, true, owner); }
		b.push_back(std::move(n)); if (stop) break;
	}
	return b;
}
enum flow { NEXT, F_BRK, F_CONT, F_RET, EXC };
struct err { int id; };
// ---- what happens, by the rules of the language
static int DEPTH; // exceptions in flight
struct m_owner { int id[2] = {0, 0}, depth[2] = {0, 0}; void drop(int f) { if (id[f] && (f == 0) == (DEPTH > depth[f])) LG->add(f ? OWN_S : OWN_F, id[f]); id[f] = 0; } };
static m_owner *M_OWNER;
static flow model(block const &b, size_t i, int &exc);
static flow model_one(node const &n, int &exc) {
	int e = 0;
	switch (n.k) {
	case WRITE: ++LG->var; return NEXT;
	case THROW: exc = n.id; LG->add(100, n.id); return EXC;
	case RET: return F_RET; case BRK: return F_BRK; case CONT: return F_CONT;
	case SCOPE: return model(n.a, 0, exc);
	case TRY: { flow f = model(n.a, 0, e); if (f == EXC) { LG->add(101, e); return NEXT; } return f; }
	case RETHROW: { flow f = model(n.a, 0, e); if (f == EXC) { LG->add(102, e); exc = e; return EXC; } return f; }
	case HANDLER: LG->add(101, n.id); { flow f = model(n.a, 0, e); if (f == EXC) { exc = e; return EXC; } return f; }
	case LOOP: for (int r = 0; r < 2; ++r) { flow f = model(n.a, 0, e); if (f == F_BRK) break; if (f == F_CONT || f == NEXT) continue; exc = e; return f; } return NEXT;
	case CALL: { flow f = model(n.a, 0, e); if (f == EXC) { exc = e; return EXC; } LG->add(103, n.id); return NEXT; }
	case OWNER: { m_owner o, *outer = M_OWNER; M_OWNER = &o; flow f = model(n.a, 0, exc); M_OWNER = outer; if (f == EXC) ++DEPTH; o.drop(1); o.drop(0); if (f == EXC) --DEPTH; return f; }
	case OWN_F: case OWN_S: M_OWNER->drop(n.k == OWN_S); M_OWNER->id[n.k == OWN_S] = n.id; M_OWNER->depth[n.k == OWN_S] = DEPTH; return NEXT;
	default: return NEXT;
	}
}
static flow model(block const &b, size_t i, int &exc) {
	if (i == b.size()) return NEXT;
	node const &n = b[i]; int e = 0;
	if (n.k <= GUARD_AB || n.k == DTOR) {
		flow f = model(b, i + 1, exc);
		if (n.k == GUARD_A || (n.k == GUARD_F && f == EXC) || (n.k == GUARD_S && f != EXC)) LG->add(n.k, n.id);
		if (n.k == GUARD_SX && f != EXC) { LG->add(n.k, n.id); exc = 1000 + n.id; return EXC; }
		if (n.k == GUARD_AB || n.k == DTOR) { LG->add(n.k, n.id); if (f == EXC) ++DEPTH; if (model(n.a, 0, e) == EXC) LG->add(104, e); if (f == EXC) --DEPTH; }
		return f;
	}
	flow f = model_one(n, exc); return f == NEXT ? model(b, i + 1, exc) : f;
}
// ---- the real thing
static flow real(block const &b, size_t i);
struct functor { int k, id; void operator()() const { LG->add(k, id); } };
struct r_owner { std::optional<dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnFail, functor>> f; std::optional<dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnSuccess, functor>> s; };
static r_owner *R_OWNER;
struct runs_block { node const &n; ~runs_block() { LG->add(DTOR, n.id); try { real(n.a, 0); } catch (err const &x) { LG->add(104, x.id); } } };
static flow real_one(node const &n) {
	switch (n.k) {
	case WRITE: ++LG->var; return NEXT;
	case THROW: LG->add(100, n.id); throw err{n.id};
	case RET: return F_RET; case BRK: return F_BRK; case CONT: return F_CONT;
	case SCOPE: return real(n.a, 0);
	case TRY: try { return real(n.a, 0); } catch (err const &x) { LG->add(101, x.id); } return NEXT;
	case RETHROW: try { return real(n.a, 0); } catch (err const &x) { LG->add(102, x.id); throw; }
	case HANDLER: try { throw err{n.id}; } catch (err const &x) { LG->add(101, x.id); return real(n.a, 0); }
	case LOOP: for (int r = 0; r < 2; ++r) { flow f = real(n.a, 0); if (f == F_BRK) break; if (f == F_CONT || f == NEXT) continue; return f; } return NEXT;
	case CALL: { real(n.a, 0); LG->add(103, n.id); return NEXT; }
	case OWNER: { r_owner o; struct back { r_owner *old = R_OWNER; ~back() { R_OWNER = old; } } const restore; R_OWNER = &o; return real(n.a, 0); }
	case OWN_F: R_OWNER->f.emplace(functor{OWN_F, n.id}); return NEXT;
	case OWN_S: R_OWNER->s.emplace(functor{OWN_S, n.id}); return NEXT;
	default: return NEXT;
	}
}
static flow real(block const &b, size_t i) {
	if (i == b.size()) return NEXT;
	node const &n = b[i]; int id = n.id;
	switch (n.k) {
	case GUARD_A: if (n.form == 0) { int now = -1; DICE_DEFER { LG->add(GUARD_A, now); }; now = id; return real(b, i + 1); } else if (n.form == 1) { functor const f{GUARD_A, id}; auto g = dtl::make_scope_exit_guard(f); return real(b, i + 1); } else { auto g = dtl::make_scope_exit_guard([id, p = std::make_unique<int>(1)] { LG->add(GUARD_A, id); }); return real(b, i + 1); }
	case GUARD_F: if (n.form == 0) { int now = -1; DICE_DEFER_TO_FAIL { LG->add(GUARD_F, now); }; now = id; return real(b, i + 1); } else if (n.form == 1) { functor f{GUARD_F, id}; auto g = dtl::make_scope_fail_guard(f); return real(b, i + 1); } else { dtl::ScopeExitGuard<dtl::ScopeExitPolicy::OnFail, std::function<void()>> g(std::function<void()>(functor{GUARD_F, id})); return real(b, i + 1); }
	case GUARD_S: if (n.form == 0) { int now = -1; DICE_DEFER_TO_SUCCESS { LG->add(GUARD_S, now); }; now = id; return real(b, i + 1); } else if (n.form == 1) { functor f{GUARD_S, id}; auto g = dtl::make_scope_success_guard(std::move(f)); return real(b, i + 1); } else { dtl::ScopeExitGuard<dtl::ScopeExitPolicy::Always, functor> none; auto g = dtl::make_scope_success_guard(functor{GUARD_S, id}); return real(b, i + 1); }
	case GUARD_SX: { struct { int id = -1; } now; DICE_DEFER_TO_SUCCESS { LG->add(GUARD_SX, now.id); now.id = -1; throw err{1000 + id}; }; now.id = id; return real(b, i + 1); }
	case GUARD_AB: { DICE_DEFER { LG->add(GUARD_AB, id); try { real(n.a, 0); } catch (err const &x) { LG->add(104, x.id); } }; return real(b, i + 1); }
	case DTOR: { runs_block r{n}; return real(b, i + 1); }
	default: { flow f = real_one(n); return f == NEXT ? real(b, i + 1) : f; }
	}
}
static std::string txt(std::vector<event> const &v) { std::string s; for (auto const &e : v) s += (e.what < KINDS ? std::string(names[e.what]) : e.what == 100 ? "throw" : e.what == 101 ? "caught" : e.what == 102 ? "rethrow" : e.what == 103 ? "returned" : e.what == 104 ? "swallowed" : e.what == 105 ? "escaped" : "end") + std::to_string(e.id) + (e.value ? "(" + std::to_string(e.value) + ")" : "") + " "; return s; }
static void program(int budget) {
	BUDGET = budget; next_id = 1; int left = budget; block b = gen(left, false, false); if (left != 0 && left != budget) { /* also covered: shorter programs */ } op("%s", E.tracing ? txt(b).c_str() : ""); E.transitions += (long) next_id - 2;
	log_t want, got; LG = &want; int exc = 0; flow f = model(b, 0, exc); want.add(f == EXC ? 105 : 106, exc);
	LG = &got; { sut s; try { real(b, 0); LG->add(106, 0); } catch (err const &x) { LG->add(105, x.id); } }
	MC_CHECK(got.v == want.v, "{%s}: happened %s| expected %s", txt(b).c_str(), txt(got.v).c_str(), txt(want.v).c_str());
	MC_CHECK(std::uncaught_exceptions() == 0, "exceptions left over");
	u64 h = 7; for (auto const &e : want.v) h = mix(h, mix((u64) e.what, mix((u64) e.id, (u64) e.value))); state(h); observe(h);
}
int main(int argc, char **argv) {
	int const n = THOROUGH ? 6 : 5; std::vector<scenario> v;
	for (int k = 1; k <= n; ++k) { std::vector<scenario> in{{"programs of " + std::to_string(k) + " statements", [=] { program(k); }}}; for (auto &s : split(in, k >= 5 ? 2 : k >= 3 ? 1 : 0)) v.push_back(s); }
	return run(argc, argv, v);
}
