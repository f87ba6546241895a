// S05: the clause helpers of src/sat/sat_encoder.cpp against the meaning of the constraints. This file implements IPASIR as a recorder.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <set>
#include <algorithm>
#include "sat/sat_encoder.h"
using namespace std;
typedef vector<int> VI;
static vector<VI> clauses; static VI cur; static void *theSolver = (void*) 0x1234; static long wrongHandle = 0;
extern "C" {
const char *ipasir_signature() { return "recorder"; }
void *ipasir_init() { return theSolver; }
void ipasir_release(void *) {}
void ipasir_add(void *s, int l) { if (s != theSolver) wrongHandle++; if (l) cur.push_back(l); else { clauses.push_back(cur); cur.clear(); } }
void ipasir_assume(void *, int) {}
int ipasir_solve(void *) { return 0; }
int ipasir_val(void *, int) { return 0; }
int ipasir_failed(void *, int) { return 0; }
void ipasir_set_terminate(void *, void *, int (*)(void *)) {}
void ipasir_set_learn(void *, void *, int, void (*)(void *, int *)) {}
}
map<string, long> cnt; static void viol(const string &sig, const string &msg) { printf("@VIOL %s|%s\n", sig.c_str(), msg.c_str()); cnt["violations"]++; }
struct DP { // complete: unit propagation with watches by occurrence, and branching
	int nv; const vector<VI> &cl; vector<VI> occ; vector<signed char> val; VI trail; long steps = 0;
	DP(int n, const vector<VI> &c) : nv(n), cl(c), occ(2 * (n + 1)), val(n + 1, 0) { for (size_t i = 0; i < c.size(); i++) for (int l : c[i]) occ[ix(l)].push_back(i); }
	static int ix(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
	int lv(int l) { return l > 0 ? val[l] : -val[-l]; }
	bool set1(int l, VI &q) { int v = lv(l); if (v > 0) return true; if (v < 0) return false; val[abs(l)] = l > 0 ? 1 : -1; trail.push_back(abs(l)); q.push_back(l); return true; }
	bool prop(VI q) {
		while (!q.empty()) {
			int l = q.back(); q.pop_back();
			for (int ci : occ[ix(-l)]) {
				int un = 0, last = 0; bool sat = false; for (int x : cl[ci]) { steps++; int v = lv(x); if (v > 0) { sat = true; break; } if (!v && (!un || x != last)) { un++; last = x; } }
				if (sat) continue; if (!un) return false; if (un == 1) if (!set1(last, q)) return false;
			}
		}
		return true;
	}
	bool init() { VI q; for (auto &c : cl) { if (c.empty()) return false; set<int> s(c.begin(), c.end()); if (s.size() == 1) if (!set1(c[0], q)) return false; } return prop(q); }
	bool branch() {
		int v = 0; for (int i = nv; i >= 1; i--) if (!val[i] && (!occ[2 * i].empty() || !occ[2 * i + 1].empty())) { v = i; break; }
		if (!v) return true;
		for (int s : {1, -1}) { size_t t = trail.size(); VI q; set1(s * v, q); if (prop(q) && branch()) return true; undo(t); }
		return false;
	}
	void undo(size_t t) { while (trail.size() > t) { val[trail.back()] = 0; trail.pop_back(); } }
	bool sat(const VI &assume) { size_t t = trail.size(); bool ok = true; VI q; for (int l : assume) if (!set1(l, q)) { ok = false; break; } ok = ok && prop(q) && branch(); undo(t); return ok; }
};
mt19937_64 rng; static int rnd(int n) { return n > 0 ? rng() % n : 0; }
struct Con { int kind, i, j, k; VI js; };
static const char *names[] = {"assertYes", "assertNot", "implies", "impliesAnd", "impliesNot", "impliesOr", "impliesPosAndNegImpliesOr", "impliesAllNot", "notImpliesAllNot", "andImplies", "andImpliesSet", "atMostOne", "atLeastOne", "atMostK", "notAll"};
static bool holds(const Con &c, const vector<char> &a) {
	auto L = [&](int l) { return l > 0 ? (bool) a[l] : !a[-l]; }; int n = 0; for (int x : c.js) n += L(x); int m = c.js.size();
	switch (c.kind) {
		case 0: return L(c.i); case 1: return !L(c.i); case 2: return !L(c.i) || L(c.j); case 3: case 9: return !(L(c.i) && L(c.j)) || L(c.k); case 4: return !L(c.i) || !L(c.j);
		case 5: return !L(c.i) || n > 0; case 6: return !(L(c.i) && !L(c.j)) || n > 0; case 7: return !L(c.i) || n == 0; case 8: return L(c.i) || n == 0;
		case 10: return n < m || L(c.j); case 11: return n <= 1; case 12: return n >= 1; case 13: return n <= c.k; default: return n < m;
	}
}
static void emit(Con &c, sat_capsule &cap) {
	void *s = theSolver; set<int> st(c.js.begin(), c.js.end()); VI keep = c.js;
	switch (c.kind) {
		case 0: assertYes(s, c.i); break; case 1: assertNot(s, c.i); break; case 2: implies(s, c.i, c.j); break; case 3: impliesAnd(s, c.i, c.j, c.k); break; case 4: impliesNot(s, c.i, c.j); break;
		case 5: impliesOr(s, c.i, c.js); break; case 6: impliesPosAndNegImpliesOr(s, c.i, c.j, c.js); break; case 7: impliesAllNot(s, c.i, c.js); break; case 8: notImpliesAllNot(s, c.i, c.js); break;
		case 9: andImplies(s, c.i, c.j, c.k); break; case 10: andImplies(s, st, c.j); break; case 11: atMostOne(s, cap, c.js); break; case 12: atLeastOne(s, cap, c.js); break; case 13: atMostK(s, cap, c.k, c.js); break; default: notAll(s, st);
	}
	if (!cur.empty()) viol("unterminated-clause", names[c.kind]);
	if (c.js != keep) viol("argument-changed", names[c.kind]);
	cnt[string("call_") + names[c.kind]]++;
}
static string show(const Con &c) { string s = string(names[c.kind]) + " i=" + to_string(c.i) + " j=" + to_string(c.j) + " k=" + to_string(c.k) + " ["; for (int x : c.js) s += to_string(x) + ","; return s + "]"; }
static Con gen(int n) {
	auto lit = [&]() { int v = 1 + rnd(n); return rnd(4) ? v : -v; };
	Con c; c.kind = rnd(15); c.i = lit(); c.j = lit(); c.k = lit(); int m = rnd(3) ? rnd(n + 1) : rnd(4); bool dup = !rnd(8); VI p; for (int i = 1; i <= n; i++) p.push_back(i); shuffle(p.begin(), p.end(), rng);
	for (int i = 0; i < m; i++) c.js.push_back(dup ? lit() : rnd(4) ? p[i % n] : -p[i % n]);
	if (c.kind == 10 || c.kind == 14) { set<int> s(c.js.begin(), c.js.end()); c.js.assign(s.begin(), s.end()); }
	if (c.kind == 13) { c.k = rnd(m + 2); if (!rnd(6)) c.k = 0; }
	return c;
}
static void checkAux(const vector<VI> &cl, size_t from, int lowAux, int cap, int n, const string &what) { for (size_t i = from; i < cl.size(); i++) for (int l : cl[i]) { int v = abs(l); if (v > n && (v <= lowAux || v > cap)) { viol("foreign-variable", what + " uses variable " + to_string(v)); return; } } }
static void small(int n) { // a mixture of calls sharing one formula, all assignments
	sat_capsule cap; for (int i = 0; i < n; i++) if (cap.new_variable() != i + 1) viol("variable-numbering", "new_variable");
	clauses.clear(); vector<Con> cs; int m = rnd(4) ? 1 + rnd(5) : 1; string what;
	for (int i = 0; i < m; i++) { Con c = gen(n); if (cnt["violations"]) return; int low = cap.number_of_variables; size_t f = clauses.size(); emit(c, cap); checkAux(clauses, f, low, cap.number_of_variables, n, show(c)); cs.push_back(c); what += show(c) + "; "; }
	DP dp(cap.number_of_variables, clauses); bool ok = dp.init(); bool any = false, all = true;
	for (int a = 0; a < 1 << n; a++) {
		vector<char> v(n + 1); VI as; for (int i = 1; i <= n; i++) { v[i] = a >> (i - 1) & 1; as.push_back(v[i] ? i : -i); }
		bool want = true; for (auto &c : cs) want = want && holds(c, v); bool got = ok && dp.sat(as); cnt["assignments"]++; any |= want; all &= want;
		if (want != got) { viol(got ? "too-weak" : "too-strong", what + " assignment " + to_string(a)); return; }
	}
	cnt["formulas"]++; if (any && !all) cnt["contingent_formulas"]++;
}
static void large(int m) { // at most one / at most k of many: all of weight 0 and 1, pairs, and random weights
	sat_capsule cap; for (int i = 0; i < m; i++) cap.new_variable(); clauses.clear(); Con c; c.i = c.j = c.k = 0; c.kind = rnd(4) ? 11 : 13; int k = 1;
	VI p; for (int i = 1; i <= m; i++) p.push_back(i); if (rnd(2)) shuffle(p.begin(), p.end(), rng);
	if (c.kind == 13) { m = min(m, 2 + m % 60); p.resize(m); k = c.k = rnd(m); } c.js = p; int n0 = cap.number_of_variables; emit(c, cap); checkAux(clauses, 0, n0, cap.number_of_variables, n0, show(c));
	cnt["large_formulas"]++; if (m >= 256) cnt["at_most_one_of_256_or_more"]++;
	DP dp(cap.number_of_variables, clauses); bool ok = dp.init(); int N = cap.number_of_variables;
	auto test = [&](const VI &on) { VI as; set<int> s(on.begin(), on.end()); for (int x : p) as.push_back(s.count(x) ? x : -x); bool got = ok && dp.sat(as); bool want = (int) s.size() <= k; cnt["assignments"]++; if (got != want) viol(got ? "too-weak" : "too-strong", string(names[c.kind]) + " of " + to_string(m) + " k=" + to_string(k) + " weight " + to_string(s.size()) + " first " + to_string(on.empty() ? 0 : on[0]) + " second " + to_string(on.size() > 1 ? on[1] : 0)); return got == want; };
	if (!test({})) return; for (int x : p) if (!test({x})) return;
	int pairs = m * (m - 1) / 2; if (pairs <= 1500) { for (int i = 0; i < m; i++) for (int j = i + 1; j < m; j++) if (!test({p[i], p[j]})) return; }
	else { for (int i = 0; i + 1 < m; i++) if (!test({p[i], p[i + 1]})) return; for (int b = 1; b < m; b *= 2) for (int t = 0; t < 20; t++) { int i = rnd(m), j = i ^ b; if (j < m && !test({p[i], p[j]})) return; } for (int t = 0; t < 500; t++) { int i = rnd(m), j = rnd(m); if (!test({p[i], p[j]})) return; } }
	for (int t = 0; t < 60; t++) { VI q = p; shuffle(q.begin(), q.end(), rng); int w = rnd(4) ? k + rnd(3) : rnd(m + 1); q.resize(min(w, m)); if (!test(q)) return; }
}
int main(int argc, char **argv) {
	rng.seed(atoll(argv[1])); int N = atoi(argv[2]);
	for (int i = 0; i < N && !cnt["violations"]; i++) small(1 + rnd(9));
	for (int i = 0; i < 6 && !cnt["violations"]; i++) { static const int sz[] = {2, 3, 17, 64, 100, 254, 255, 256, 257, 258, 300, 383, 384, 511, 512, 513, 700, 1023, 1024, 1025}; large(rnd(3) ? sz[rnd(20)] : 2 + rnd(600)); }
	if (wrongHandle) viol("wrong-solver-handle", "");
	for (auto &x : cnt) printf("@CNT %s %ld\n", x.first.c_str(), x.second);
	printf("@DONE\n"); return 0;
}
