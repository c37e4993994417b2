// Scenarios: library computations under simulated thread schedules (echelonization, pivots, Schur complements, RREF, kernel, solving, certificates).
#include "fact.h"
std::string lu_bytes(const struct spasm_lu *f) {
	std::string s = csr_bytes(f->U); if (f->L) { s += csr_bytes(f->L); s.append((const char *) f->p, (size_t) f->r * sizeof(int)); } s.append((const char *) f->qinv, (size_t) f->U->m * sizeof(int)); s.append((const char *) &f->r, 4); s += f->complete ? 'c' : 'i'; return s; }
static int guard_T(const Spec &s) { return s.T; }
struct spasm_lu *get_fact(const Spec &s, const struct spasm_csr *Ac, const Dense &A, bool wantL, bool complete, RefFact *ref) {
	Rng r(mix64(s.get("fseed", 1) ^ 0xFAC7));
	if (s.get("fsrc") == 0 || ref) { RefFact F = ref_eliminate(A, r); struct spasm_lu *f = lu_from(F, r, wantL, complete); if (ref) *ref = F; return f; }
	struct echelonize_opts o = mk_opts(s); o.L = wantL; o.complete = complete; struct spasm_lu *f = nullptr;
	Outcome oc = sut([&] { f = spasm_echelonize(Ac, &o); }); must_return(oc, "spasm_echelonize"); own(f); return f;
}
static void gen_fact(Rng &r, Spec &s, bool wantL) { gen_opts(r, s, wantL); s.set("fsrc", r.chance(1, 3)); s.set("fseed", r.next() >> 2); s.set("f.complete", r.chance(1, 2)); }
static void hash_csr(const struct spasm_csr *A) { std::string b = csr_bytes(A); note_hash(b.data(), b.size()); }
static void unchanged(const std::string &before, const std::string &after, const char *what) { if (before != after) violation("input-modified", std::string(what) + " was modified"); }

// ------------------------------------------------------------------ echelonization (E01, E02)
static void ech_common(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime); struct spasm_csr *Ac = mk_csr(M, s.prime); std::string before = csr_bytes(Ac);
	struct echelonize_opts o = mk_opts(s); bool nullopts = s.get("o.null"); struct spasm_lu *f = nullptr;
	Outcome oc = sut([&] { f = spasm_echelonize(Ac, nullopts ? nullptr : &o); });
	reach_probes(); must_return(oc, "spasm_echelonize"); sim_end();
	unchanged(before, csr_bytes(Ac), "the input matrix of spasm_echelonize");
	check_echelon(A, f, "spasm_echelonize"); if (s.prime > 2147483647ll) probe(PR_R_BIGPRIME);
	if (!nullopts && (s.get("o.L") || s.get("o.complete"))) { probe(PR_R_L); if (s.get("o.complete")) probe(PR_R_COMPLETE); check_pluq(A, f, s.get("o.complete"), "spasm_echelonize"); hash_csr(f->L); }
	hash_csr(f->U);
	own(f); if (false) { Outcome of = sut([&] { spasm_lu_free(f); }); must_return(of, "spasm_lu_free"); sim_end(); }
	run_done(M.e.size() > 0);
}
SCEN(ech)
// a new independent row, then a dozen dependent ones, over and over: the row-by-row elimination has to decide again and again, from random combinations, whether it has finished
static void gen_stutter(Rng &r, Spec &s) {
	static const i64 ps[] = {3, 5, 17, 61, 131, 131, 137, 137, 139, 149, 151, 157, 163, 191, 257, 263, 401}; s.prime = ps[r.below(17)]; i64 p = s.prime; s.set("randmode", 0); s.set("o.default", 0); s.set("o.L", 0); s.set("o.complete", 0); s.set("o.rounds", 0); s.set("o.dense", 0); s.set("o.tall", 0); s.set("o.gplu", 1); s.set("o.null", 0);
	int k = r.chance(1, 8) ? 4 + r.below(10) : 2 + r.below(2), m = k + r.below(3); std::vector<std::vector<i64>> base(k, std::vector<i64>(m, 0)); for (auto &b : base) for (auto &x : b) if (r.chance(1, 2)) x = (i64) (r.next() % p); for (int i = 0; i < k; i++) base[i][i] = 1 + (i64) (r.next() % (p - 1));
	Mat M; M.m = m; int n = 0; auto row = [&](const std::vector<i64> &v) { for (int j = 0; j < m; j++) { i64 x = v[j] % p; if (x) M.e.push_back({n, j, x > p / 2 ? x - p : x}); } n++; };
	for (int i = 0; i < k; i++) { row(base[i]); for (int t = 11 + r.below(4); t > 0; t--) { std::vector<i64> v(m, 0); if (!r.chance(1, 4)) for (int u = 1 + r.below(2); u > 0; u--) { int a = r.below(i + 1); i64 c = (i64) (r.next() % p); for (int j = 0; j < m; j++) v[j] = (v[j] + c * base[a][j]) % p; } row(v); } }
	M.n = n; s.mats["A"] = M;
}
static void gen_ech(Rng &r, Spec &s) {
	s.prime = gen_prime(r); gen_opts(r, s, r.chance(1, 4)); if (r.chance(1, 20)) s.set("o.default", 1); if (r.chance(1, 40)) s.set("o.null", 1);
	s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 60 : 24, r.chance(1, 6) ? 60 : 24, s.get("hard"));
	if (r.chance(1, 40)) gen_stutter(r, s); else if (r.chance(1, 700)) { s.mats["A"] = gen_wide(r, s.prime); s.set("o.default", 0); s.set("o.null", 0); s.set("o.blk", std::min<i64>(s.get("o.blk"), 20)); }
}
static void run_ech(const Spec &s) { ech_common(s); }
SCEN(echL)
static void gen_echL(Rng &r, Spec &s) {
	s.prime = gen_prime(r); gen_opts(r, s, true); if (r.chance(1, 20)) s.set("o.default", 1); if (s.get("o.complete") && r.chance(1, 3)) s.set("o.L", 0);   // a complete factorisation implies L
	s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 8) ? 60 : 24, r.chance(1, 8) ? 60 : 24, s.get("hard"));
}
static void run_echL(const Spec &s) { ech_common(s); }

// ------------------------------------------------------------------ structural pivots (P03)
SCEN(pivots)
static void gen_pivots(Rng &r, Spec &s) {
	s.prime = gen_prime(r); gen_opts(r, s, r.chance(1, 2)); s.set("o.greedy", !r.chance(1, 6)); s.set("rounds", r.pick({1, 1, 1, 2, 3, 5})); s.set("unz", r.pick({0, 0, 1, 5, 1000})); s.set("lnz", r.pick({1, 1, 2, 8, 2000})); s.set("fseed", r.next() >> 2); s.set("usepin", r.chance(2, 3));
	if (r.chance(1, 2)) { s.set("sync", r.pick({1, 10, 40})); s.set("hot", r.pick({1, 5, 20})); }
	s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 5) ? 60 : 25, r.chance(1, 5) ? 60 : 25, r.chance(1, 2));
}
static void run_pivots(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime); u64 P = s.prime; int n = A.n, m = A.m; Rng r(s.get("fseed", 3));
	bool L = s.get("o.L"); struct echelonize_opts o = mk_opts(s);
	struct spasm_lu *f = (struct spasm_lu *) spasm_malloc(sizeof *f); memset(f, 0, sizeof *f);
	f->U = spasm_csr_alloc(n, m, s.get("unz"), P, true); f->U->n = 0; f->U->p[0] = 0; f->qinv = (int *) spasm_malloc((i64) m * 4); for (int j = 0; j < m; j++) f->qinv[j] = -1;
	if (L) { f->Ltmp = spasm_triplet_alloc(n, n, s.get("lnz", 1), P, true); f->p = (int *) spasm_malloc((i64) n * 4); for (int i = 0; i < n; i++) f->p[i] = -1; }
	struct spasm_csr *Ac = mk_csr(M, P); Dense C = A; std::vector<int> orig(n); for (int i = 0; i < n; i++) orig[i] = i; bool pin = false;
	Dense Uref(0, m, P); std::vector<int> pivs; std::vector<Entry> Lref;
	for (int round = 0; round < s.get("rounds", 1); round++) {
		std::string before = csr_bytes(Ac); int *p = (int *) spasm_malloc((i64) C.n * 4), *p_in = nullptr; int U0 = f->U->n;
		if (pin || s.get("usepin")) { p_in = (int *) spasm_malloc((i64) C.n * 4); for (int i = 0; i < C.n; i++) p_in[i] = orig[i]; }
		int np = -1; Outcome oc = sut([&] { np = spasm_pivots_extract_structural(Ac, p_in, f, p, &o); }); must_return(oc, "spasm_pivots_extract_structural"); if (!round) own_partial(f); sim_end();
		unchanged(before, csr_bytes(Ac), "the matrix"); bool nonzero = false; for (u32 x : C.a) nonzero |= x != 0;
		if (np < 0 || np > std::min(C.n, m)) violation("pivots", S("%d pivots on a %d x %d matrix", np, C.n, m));
		if (nonzero && np == 0) violation("pivots", "no pivot found on a nonzero matrix");
		if (f->U->n != U0 + np) violation("pivots", S("U has %d rows, expected %d + %d", f->U->n, U0, np));
		std::vector<char> seen(C.n, 0); for (int k = 0; k < C.n; k++) { if (p[k] < 0 || p[k] >= C.n || seen[p[k]]) violation("pivots", S("row list is not a permutation at position %d (value %d)", k, p[k])); seen[p[k]] = 1; }
		Dense U = csr_dense(f->U, P, "U");
		for (int k = 0; k < U0; k++) for (int j = 0; j < m; j++) if (U.at(k, j) != Uref.at(k, j)) violation("pivots", S("row %d of U (from an earlier round) changed", k));
		for (int k = 0; k < np; k++) {
			int i = p[k]; i64 b = f->U->p[U0 + k]; if (f->U->p[U0 + k + 1] == b) violation("pivots", "empty pivotal row"); int j = f->U->j[b];
			if (f->qinv[j] != U0 + k) violation("pivots", S("pivot map of column %d is %d, expected row %d", j, f->qinv[j], U0 + k));
			if (C.at(i, j) == 0) violation("pivots", S("pivot (%d, %d) is not on an entry", i, j));
			if (U.at(U0 + k, j) != 1) violation("pivots", S("pivot of row %d is not one", k));
			u64 c = C.at(i, j); for (int t = 0; t < m; t++) if (c * U.at(U0 + k, t) % P != C.at(i, t)) violation("pivots", S("row %d of U is not the scaled row %d of the matrix (column %d)", U0 + k, i, t));
			pivs.push_back(j); Lref.push_back({orig[i], U0 + k, (i64) c});
			if (L && f->p[U0 + k] != orig[i]) violation("pivots", S("row %d of U recorded as original row %d, expected %d", U0 + k, f->p[U0 + k], orig[i]));
		}
		for (int k = 0; k < U.n; k++) for (int t = k + 1; t < U.n; t++) { if (pivs[k] == pivs[t]) violation("pivots", S("column %d has two pivots", pivs[k])); if (U.at(t, pivs[k])) violation("pivots", S("pivots not triangular: row %d has an entry on the pivot column of row %d", t, k)); }
		int cnt = 0; for (int j = 0; j < m; j++) cnt += f->qinv[j] >= 0; if (cnt != U.n) violation("pivots", S("pivot map has %d columns for %d rows", cnt, U.n));
		if (L) { if (f->Ltmp->nz != (i64) Lref.size()) violation("pivots", S("%lld entries in L, expected %zu", (long long) f->Ltmp->nz, Lref.size())); for (size_t t = 0; t < Lref.size(); t++) if (f->Ltmp->i[t] != Lref[t].i || f->Ltmp->j[t] != Lref[t].j || nrm(f->Ltmp->x[t], P) != (u32) Lref[t].x) violation("pivots", S("entry %zu of L is wrong", t)); }
		Uref = U; if (np > 0) note_hash((u64) np); for (int k = 0; k < np; k++) note_hash((u64) p[k] << 32 | pivs[U0 + k]);
		if (log_has("greedy algorithm will not")) {} if (np > 1) probe(PR_R_CYCLEFREE);
		// reference Schur complement of the other rows, in random order
		std::vector<int> rest; for (int k = np; k < C.n; k++) rest.push_back(p[k]); for (int i = (int) rest.size() - 1; i > 0; i--) std::swap(rest[i], rest[r.below(i + 1)]);
		Dense D(rest.size(), m, P); std::vector<int> no; bool left = false;
		for (size_t t = 0; t < rest.size(); t++) { no.push_back(orig[rest[t]]); for (int j = 0; j < m; j++) D.at(t, j) = C.at(rest[t], j); for (int k = 0; k < U.n; k++) if (u64 c = D.at(t, pivs[k])) for (int j = 0; j < m; j++) D.at(t, j) = (u32) ((D.at(t, j) + (P - c) * U.at(k, j)) % P); for (int j = 0; j < m; j++) left |= D.at(t, j) != 0; }
		if (!left) break; C = D; orig = no; pin = true; Ac = dense_csr(C, r); if (round) probe(PR_R_MULTIROUND);
	}
	run_done(M.e.size() > 1);
}

// ------------------------------------------------------------------ Schur complements (S04, S05)
struct Partial { RefFact F; std::vector<int> rows, rest; std::vector<Row> S; std::vector<std::vector<u32>> coef; struct spasm_lu *f; };
static Partial mk_partial(const Spec &s, const Dense &A, Rng &r) {
	Partial X; int n = A.n, m = A.m; u64 P = A.p; i64 frac = s.get("pfrac", 500);
	for (int i = 0; i < n; i++) (((i64) r.below(1000) < frac) ? X.rows : X.rest).push_back(i);
	X.F = ref_eliminate(A, r, &X.rows); { std::vector<char> pv(n, 0); for (int i : X.F.p) pv[i] = 1; for (int i : X.rows) if (!pv[i] && r.chance(1, 2)) X.rest.push_back(i); }
	for (int i = (int) X.rest.size() - 1; i > 0; i--) std::swap(X.rest[i], X.rest[r.below(i + 1)]);
	X.f = lu_from(X.F, r, false, false);
	for (int i : X.rest) { Row w(A.a.begin() + (size_t) i * m, A.a.begin() + (size_t) (i + 1) * m); std::vector<u32> c(X.F.r, 0); for (int k = 0; k < X.F.r; k++) if (u64 v = w[X.F.piv[k]]) { c[k] = (u32) v; for (int j = 0; j < m; j++) w[j] = (u32) ((w[j] + (P - v) * X.F.U.at(k, j)) % P); } X.S.push_back(w); X.coef.push_back(c); }
	return X;
}
static void check_L(const Dense &A, const struct spasm_triplet *L, i64 l0, const std::vector<Entry> &prefix, const Partial &X, const std::vector<int> &orig, u64 P) {
	for (i64 t = 0; t < l0; t++) if (L->i[t] != prefix[t].i || L->j[t] != prefix[t].j || L->x[t] != (spasm_ZZp) prefix[t].x) violation("schur-L", S("entry %lld of L recorded earlier was overwritten", (long long) t));
	if (L->nz < l0 || L->nz > L->nzmax) violation("schur-L", S("L claims %lld entries with room for %lld", (long long) L->nz, (long long) L->nzmax));
	std::map<std::pair<int, int>, u64> got; for (i64 t = l0; t < L->nz; t++) { u64 &g = got[{L->i[t], L->j[t]}]; g = (g + nrm(L->x[t], P)) % P; }
	std::map<int, int> who; for (size_t k = 0; k < X.rest.size(); k++) who[orig[X.rest[k]]] = k;
	for (auto &g : got) { auto it = who.find(g.first.first); if (it == who.end() || g.first.second < 0 || g.first.second >= X.F.r) { if (g.second) violation("schur-L", S("unexpected entry (%d, %d) in L", g.first.first, g.first.second)); continue; }
		if (g.second != X.coef[it->second][g.first.second]) violation("schur-L", S("elimination coefficient (%d, %d) is %llu, expected %u", g.first.first, g.first.second, (unsigned long long) g.second, X.coef[it->second][g.first.second])); }
	for (size_t k = 0; k < X.rest.size(); k++) for (int j = 0; j < X.F.r; j++) if (X.coef[k][j] && !got.count({orig[X.rest[k]], j})) violation("schur-L", S("elimination coefficient (%d, %d) missing from L", orig[X.rest[k]], j));
}
static struct spasm_triplet *mk_L(const Spec &s, Rng &r, int n, u64 P, std::vector<Entry> &prefix) {
	i64 l0 = s.get("lpre"); struct spasm_triplet *L = spasm_triplet_alloc(n, n, std::max<i64>(l0, s.get("lnz", 1)), P, true);
	for (i64 t = 0; t < l0; t++) { Entry e{(int) r.below(std::max(1, n)), 1000000 + (int) t, (i64) r.below(100)}; L->i[t] = e.i; L->j[t] = e.j; L->x[t] = e.x; prefix.push_back(e); } L->nz = l0; return L;
}
SCEN(schur)
static void gen_schur(Rng &r, Spec &s) {
	s.prime = gen_prime(r); s.set("fseed", r.next() >> 2); s.set("pfrac", r.pick({0, 100, 300, 500, 500, 800, 1000})); s.set("dens", r.pick({0, 0, 0, 1, 2, 3, 4})); s.set("wantL", r.chance(1, 2)); s.set("lnz", r.pick({1, 1, 2, 5, 40, 5000})); s.set("lpre", r.pick({0, 0, 1, 3, 20})); s.set("pin", r.chance(1, 2)); s.set("pout", r.chance(4, 5));
	s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 60 : 25, r.chance(1, 6) ? 60 : 25, r.chance(1, 3));
}
static void run_schur(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime); u64 P = s.prime; int n = A.n, m = A.m; Rng r(s.get("fseed", 5));
	struct spasm_csr *Ac = mk_csr(M, P); Partial X = mk_partial(s, A, r); int N = X.rest.size();
	int *p = (int *) spasm_malloc((i64) N * 4); for (int k = 0; k < N; k++) p[k] = X.rest[k];
	std::vector<int> orig(n); for (int i = 0; i < n; i++) orig[i] = i; int *p_in = nullptr;
	if (s.get("pin")) { for (int i = n - 1; i > 0; i--) std::swap(orig[i], orig[r.below(i + 1)]); p_in = (int *) spasm_malloc((i64) n * 4); for (int i = 0; i < n; i++) p_in[i] = orig[i]; }
	int *p_out = s.get("pout", 1) ? (int *) spasm_malloc((i64) N * 4) : nullptr; std::vector<Entry> prefix; struct spasm_triplet *L = s.get("wantL") ? mk_L(s, r, n, P, prefix) : nullptr;
	i64 nz = 0; for (auto &w : X.S) for (u32 x : w) nz += x != 0; double est;
	switch (s.get("dens")) { case 0: est = -1; break; case 1: est = 0; break; case 2: est = 1e-3; break; case 3: est = (N && m) ? (double) nz / N / m : 0; break; default: est = 1; }
	std::string ba = csr_bytes(Ac), bf = lu_bytes(X.f); struct spasm_csr *Sc = nullptr; int nT = guard_T(s); (void) nT;
	Outcome oc = sut([&] { Sc = spasm_schur(Ac, p, N, X.f, est, L, p_in, p_out); }); must_return(oc, "spasm_schur"); own(Sc); if (L) own(L); sim_end();
	unchanged(ba, csr_bytes(Ac), "the matrix"); unchanged(bf, lu_bytes(X.f), "the factorization");
	for (int k = 0; k < N; k++) if (p[k] != X.rest[k]) violation("input-modified", "the row list was modified");
	if (Sc->n != N || Sc->m != m) violation("schur", S("Schur complement is %d x %d, expected %d x %d", Sc->n, Sc->m, N, m));
	Dense D = csr_dense(Sc, P, "Schur complement", true); std::map<int, int> who; for (int k = 0; k < N; k++) who[orig[X.rest[k]]] = k; std::vector<char> used(N, 0);
	if (p_out) for (int k = 0; k < N; k++) { auto it = who.find(p_out[k]); if (it == who.end() || used[it->second]) violation("schur", S("row %d claims to be original row %d (unknown or duplicate)", k, p_out[k])); used[it->second] = 1; for (int j = 0; j < m; j++) if (D.at(k, j) != X.S[it->second][j]) violation("schur", S("row %d (original row %d), column %d: %u instead of %u", k, p_out[k], j, D.at(k, j), X.S[it->second][j])); }
	else { std::multiset<Row> a, b; for (int k = 0; k < N; k++) { a.insert(Row(D.a.begin() + (size_t) k * m, D.a.begin() + (size_t) (k + 1) * m)); b.insert(X.S[k]); } if (a != b) violation("schur", "the rows of the Schur complement are not the eliminated rows"); }
	if (L) { probe(PR_R_L); check_L(A, L, prefix.size(), prefix, X, orig, P); }
	if (p_out) for (int k = 0; k < N; k++) note_hash(p_out[k]); hash_csr(Sc); run_done(N > 0 && nz > 0);
}
static spasm_datatype pick_type(const Spec &s, i64 P) { switch (s.get("dtype")) { case 0: return spasm_datatype_choose(P); case 1: return SPASM_I64; case 2: return SPASM_DOUBLE; default: return P < 16000000 ? SPASM_FLOAT : SPASM_DOUBLE; } }
static size_t tsize(spasm_datatype t) { return t == SPASM_FLOAT ? 4 : 8; }
static i64 tread(const void *b, size_t i, spasm_datatype t) { switch (t) { case SPASM_FLOAT: return (i64) ((const float *) b)[i]; case SPASM_DOUBLE: return (i64) ((const double *) b)[i]; default: return ((const i64 *) b)[i]; } }
static void check_q(const int *q, int Sm, const Partial &X, int m, const char *what) { std::vector<char> piv(m, 0); for (int j : X.F.piv) piv[j] = 1; for (int t = 0; t < Sm; t++) { if (q[t] < 0 || q[t] >= m || piv[q[t]]) violation("schur", S("%s: column map sends %d to %d (out of range, pivotal, or duplicate)", what, t, q[t])); piv[q[t]] = 1; } }
SCEN(schurd)
static void gen_schurd(Rng &r, Spec &s) {
	s.prime = gen_prime(r); s.set("fseed", r.next() >> 2); s.set("pfrac", r.pick({0, 100, 300, 500, 500, 800})); s.set("dtype", r.below(4)); s.set("wantL", r.chance(1, 2)); s.set("lnz", r.pick({1, 1, 2, 5, 40})); s.set("lpre", r.pick({0, 0, 1, 3, 20})); s.set("pin", r.chance(1, 2));
	s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 60 : 25, r.chance(1, 6) ? 60 : 25, r.chance(1, 3));
}
static void run_schurd(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime); u64 P = s.prime; int n = A.n, m = A.m; Rng r(s.get("fseed", 5));
	struct spasm_csr *Ac = mk_csr(M, P); Partial X = mk_partial(s, A, r); int N = X.rest.size(), Sm = m - X.F.r; spasm_datatype dt = pick_type(s, P);
	int *p = (int *) spasm_malloc((i64) N * 4); for (int k = 0; k < N; k++) p[k] = X.rest[k];
	std::vector<int> orig(n); for (int i = 0; i < n; i++) orig[i] = i; int *p_in = nullptr;
	if (s.get("pin")) { for (int i = n - 1; i > 0; i--) std::swap(orig[i], orig[r.below(i + 1)]); p_in = (int *) spasm_malloc((i64) n * 4); for (int i = 0; i < n; i++) p_in[i] = orig[i]; }
	int *p_out = (int *) spasm_malloc((i64) N * 4), *q = (int *) spasm_malloc((i64) Sm * 4); std::vector<Entry> prefix; if (s.get("wantL")) X.f->Ltmp = mk_L(s, r, n, P, prefix);
	void *B = spasm_malloc((i64) N * Sm * tsize(dt)); std::string ba = csr_bytes(Ac), bf = lu_bytes(X.f);
	Outcome oc = sut([&] { spasm_schur_dense(Ac, p, N, p_in, X.f, B, dt, q, p_out); }); must_return(oc, "spasm_schur_dense"); if (X.f->Ltmp) own(X.f->Ltmp); sim_end();
	unchanged(ba, csr_bytes(Ac), "the matrix"); unchanged(bf, lu_bytes(X.f), "the factorization"); check_q(q, Sm, X, m, "spasm_schur_dense");
	std::map<int, int> who; for (int k = 0; k < N; k++) who[orig[X.rest[k]]] = k; std::vector<char> used(N, 0); u64 h = 0;
	for (int k = 0; k < N; k++) { auto it = who.find(p_out[k]); if (it == who.end() || used[it->second]) violation("schur", S("row %d claims to be original row %d (unknown or duplicate)", k, p_out[k])); used[it->second] = 1;
		for (int t = 0; t < Sm; t++) { u32 v = nrm(tread(B, (size_t) k * Sm + t, dt), P); h = mix64(h ^ v); if (v != X.S[it->second][q[t]]) violation("schur", S("dense row %d (original row %d), column %d: %u instead of %u", k, p_out[k], q[t], v, X.S[it->second][q[t]])); } }
	if (X.f->Ltmp) { probe(PR_R_L); check_L(A, X.f->Ltmp, prefix.size(), prefix, X, orig, P); }
	note_hash(h); run_done(N > 0 && Sm > 0);
}
SCEN(schurr)
static void gen_schurr(Rng &r, Spec &s) {
	s.prime = gen_prime(r); s.set("fseed", r.next() >> 2); s.set("pfrac", r.pick({0, 100, 300, 500, 500, 800})); s.set("dtype", r.below(4)); s.set("w", r.pick({0, 0, -1, -1, 1, 2, 5, 30})); s.set("split", r.chance(1, 2)); s.set("few", r.chance(1, 4)); s.set("pin", 0); s.set("cover", r.chance(1, 3)); s.set("invoc", r.pick({1, 3, 20, 200, 1000, 100000}));
	if (s.get("cover") && s.get("w") > 0) { s.set("few", 0); s.mats["A"] = gen_matrix(r, s.prime, 12, 10, r.chance(1, 3)); }
	else s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 50 : 25, r.chance(1, 6) ? 50 : 25, r.chance(1, 3));
}
static void run_schurr(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime); u64 P = s.prime; int m = A.m; Rng r(s.get("fseed", 5));
	struct spasm_csr *Ac = mk_csr(M, P); Partial X = mk_partial(s, A, r); int N = X.rest.size(), Sm = m - X.F.r; spasm_datatype dt = pick_type(s, P); if (N == 0) run_done(false);
	int *p = (int *) spasm_malloc((i64) N * 4); for (int k = 0; k < N; k++) p[k] = X.rest[k];
	Dense Sd(N, m, P); for (int k = 0; k < N; k++) std::copy(X.S[k].begin(), X.S[k].end(), Sd.a.begin() + (size_t) k * m); Space sp(Sd);
	int bits = 0; while ((P >> bits) > 1) bits++; int w = s.get("w"), need = sp.rank() + (100 + bits - 1) / bits, tot = s.get("few") ? 1 + (int) r.below(5) : need; std::vector<int> parts;
	if (s.get("split") && tot > 1) { int a = 1 + r.below(tot - 1); if (r.chance(1, 2)) a = std::max(1, tot / 2); parts = {a, tot - a}; } else parts = {tot};
	// Sparse combinations: a linear form that does not vanish on S is nonzero on some row, which each combination picks with probability >= 1/N, and then the value is nonzero with
	// probability >= 1 - 1/p.  Union bound over all linear forms: after 1.5 N (rank ln p + 30) independent combinations, one that is missed has probability < exp(-30).
	bool cover = false; if (s.get("cover") && w > 0 && s.get("randmode") == 0) { double t = 1.5 * N * (sp.rank() * log((double) P) + 30); if (t <= 2500) { cover = true; tot = (int) ceil(t); parts.clear(); int K = (tot + (int) s.get("invoc", 1) - 1) / (int) s.get("invoc", 1); for (int d = 0; d < tot; d += K) parts.push_back(K); tot = K * (int) parts.size(); } }
	int *q = (int *) spasm_malloc((i64) Sm * 4); std::string ba = csr_bytes(Ac), bf = lu_bytes(X.f); Dense all(tot, m, P); int row = 0;
	for (int K : parts) {
		void *B = spasm_malloc((i64) K * Sm * tsize(dt));
		Outcome oc = sut([&] { spasm_schur_dense_randomized(Ac, p, N, X.f->U, X.f->qinv, B, dt, q, K, w); }); must_return(oc, "spasm_schur_dense_randomized"); sim_end();
		check_q(q, Sm, X, m, "spasm_schur_dense_randomized");
		for (int k = 0; k < K; k++, row++) { for (int t = 0; t < Sm; t++) all.at(row, q[t]) = nrm(tread(B, (size_t) k * Sm + t, dt), P); if (!sp.contains(&all.a[(size_t) row * m])) violation("schur", S("randomized row %d is not a combination of the rows of the Schur complement", row)); }
	}
	unchanged(ba, csr_bytes(Ac), "the matrix"); unchanged(bf, lu_bytes(X.f), "the factorization");
	if ((w <= 0 && tot >= need) || cover) { int rk = rank_of(all); if (rk != sp.rank()) violation("random-blind", S("%d random combinations (%zu invocations) only span dimension %d of the %d-dimensional Schur complement", tot, parts.size(), rk, sp.rank())); }
	note_hash(all.a.data(), all.a.size() * 4); run_done(sp.rank() > 0);
}

// ------------------------------------------------------------------ RREF and kernel (R06, K07)
static struct spasm_csr *rref_csr(const RefRref &Q, Rng &r, int *&Rq) { Rq = (int *) spasm_malloc((i64) Q.R.m * 4); for (int j = 0; j < Q.R.m; j++) Rq[j] = -1; for (size_t i = 0; i < Q.piv.size(); i++) Rq[Q.piv[i]] = i; return dense_csr(Q.R, r, &Q.piv); }
SCEN(rref)
static void gen_rref(Rng &r, Spec &s) { s.prime = gen_prime(r); gen_fact(r, s, r.chance(1, 6)); s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 50 : 25, r.chance(1, 4) ? 60 : 25, r.chance(1, 2)); }
static void run_rref(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime); struct spasm_csr *Ac = mk_csr(M, s.prime); Space sp(A); struct spasm_lu *f = get_fact(s, Ac, A, s.get("o.L"), s.get("f.complete"));
	std::string bf = lu_bytes(f); int *Rq = (int *) spasm_malloc((i64) A.m * 4); struct spasm_csr *R = nullptr;
	Outcome oc = sut([&] { R = spasm_rref(f, Rq); }); must_return(oc, "spasm_rref"); own(R); sim_end(); unchanged(bf, lu_bytes(f), "the factorization");
	check_rref(sp, R, Rq, s.prime, "spasm_rref"); if (sp.rank() == 0) probe(PR_R_RANK0); hash_csr(R); run_done(sp.rank() > 0);
}
SCEN(kernel)
static void gen_kernel(Rng &r, Spec &s) { s.prime = gen_prime(r); gen_fact(r, s, false); s.set("how", r.below(4)); s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 50 : 25, r.chance(1, 4) ? 60 : 25, r.chance(1, 2)); }
static void run_kernel(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime); struct spasm_csr *Ac = mk_csr(M, s.prime), *K = nullptr; int how = s.get("how"), rk; const char *what;
	if (how < 2) { struct spasm_lu *f = get_fact(s, Ac, A, false, false); rk = Space(A).rank(); std::string bf = lu_bytes(f); what = "spasm_kernel";
		Outcome oc = sut([&] { K = spasm_kernel(f); }); must_return(oc, what); own(K); unchanged(bf, lu_bytes(f), "the factorization"); }
	else { struct spasm_csr *R = nullptr; int *Rq = nullptr; what = "spasm_kernel_from_rref"; rk = Space(A).rank();
		if (how == 2) { Rng r(s.get("fseed", 1)); RefFact F = ref_eliminate(A, r); RefRref Q = ref_reduce(F, r); R = rref_csr(Q, r, Rq); }
		else { struct spasm_lu *f = get_fact(s, Ac, A, false, false); Rq = (int *) spasm_malloc((i64) A.m * 4); Outcome oc = sut([&] { R = spasm_rref(f, Rq); }); must_return(oc, "spasm_rref"); own(R); }
		std::string b = csr_bytes(R); Outcome oc = sut([&] { K = spasm_kernel_from_rref(R, Rq); }); must_return(oc, what); own(K); unchanged(b, csr_bytes(R), "the reduced matrix"); }
	sim_end(); check_kernel(A, rk, K, s.prime, what); if (rk == A.m) probe(PR_R_FULLRANK); if (rk == 0) probe(PR_R_RANK0); hash_csr(K); run_done(A.m > rk && rk > 0);
}

// ------------------------------------------------------------------ linear systems (V08)
static Mat gen_rhs(Rng &r, u64 p, const Mat &AM, int maxn) {
	Dense A = from_mat(AM, p); Mat B; B.n = r.below(maxn + 1); B.m = A.m; if (r.chance(1, 8)) B.n = 1;
	for (int i = 0; i < B.n; i++) { Row b(A.m, 0); int kind = r.below(6);
		if (kind < 4) { int t = kind == 0 ? 1 : 1 + r.below(std::max(1, A.n)); for (int z = 0; z < t && A.n; z++) { int k = r.below(A.n); u64 c = r.next() % p; for (int j = 0; j < A.m; j++) b[j] = (u32) ((b[j] + c * A.at(k, j)) % p); } }
		if ((kind == 3 || kind == 4) && A.m) for (int z = 0; z < 1 + (int) r.below(2); z++) b[r.below(A.m)] = (u32) (r.next() % p);
		for (int j = 0; j < A.m; j++) if (b[j]) B.e.push_back({i, j, bal(b[j], p)}); }
	return B;
}
SCEN(gesv)
static void gen_gesv(Rng &r, Spec &s) { s.prime = gen_prime(r); gen_fact(r, s, true); s.set("nullok", r.chance(1, 6)); s.set("one", r.chance(1, 5)); s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 40 : 20, r.chance(1, 6) ? 40 : 20, r.chance(1, 2)); s.mats["B"] = gen_rhs(r, s.prime, s.mats["A"], 8); if ((s.prop == "V08" || s.prop == "M17") && r.chance(1, 40)) { Mat &B = s.mats["B"]; B.m = r.chance(1, 2) ? B.m + 1 + (int) r.below(5) : (int) r.below(B.m + 1); std::vector<Entry> e; for (auto &x : B.e) if (x.j < B.m) e.push_back(x); B.e = e; s.set("one", 0); } }
static void run_gesv(const Spec &s) {
	const Mat &M = s.mats.at("A"); Dense A = from_mat(M, s.prime), B = from_mat(s.mats.at("B"), s.prime); u64 P = s.prime; struct spasm_csr *Ac = mk_csr(M, P), *Bc = mk_csr(s.mats.at("B"), P); Space sp(A);
	struct spasm_lu *f = get_fact(s, Ac, A, true, s.get("f.complete")); std::string bf = lu_bytes(f), bb = csr_bytes(Bc); Dense X(B.n, A.n, P); std::vector<int> okv(B.n, -1); bool has_ok = true;
	if (B.m != A.m) { if (s.get("one")) run_done(false); struct spasm_csr *Xc = nullptr; Outcome oc = sut([&] { Xc = spasm_gesv(f, Bc, nullptr); }); if (oc.failstop()) { probe(PR_R_REJECT); note_outcome("mismatch-refused"); run_done(true); } must_return(oc, S("spasm_gesv for right-hand sides with %d columns and a matrix with %d", B.m, A.m).c_str()); violation("mismatch", S("right-hand sides with %d columns were accepted for a matrix with %d columns", B.m, A.m)); }
	if (s.get("one")) { for (int i = 0; i < B.n; i++) { spasm_ZZp *b = (spasm_ZZp *) spasm_malloc((i64) A.m * 4), *x = (spasm_ZZp *) spasm_malloc((i64) A.n * 4); for (int j = 0; j < A.m; j++) b[j] = bal(B.at(i, j), P); bool res = false;
		Outcome oc = sut([&] { res = spasm_solve(f, b, x); }); must_return(oc, "spasm_solve"); okv[i] = res; for (int j = 0; j < A.n; j++) X.at(i, j) = nrm(x[j], P); for (int j = 0; j < A.m; j++) if (b[j] != bal(B.at(i, j), P)) violation("input-modified", "the right-hand side was modified"); } }
	else { has_ok = !s.get("nullok"); bool *ok = has_ok ? (bool *) spasm_malloc(B.n) : nullptr; struct spasm_csr *Xc = nullptr; Outcome oc = sut([&] { Xc = spasm_gesv(f, Bc, ok); }); must_return(oc, "spasm_gesv"); own(Xc);
		if (Xc->n != B.n || Xc->m != A.n) violation("solve", S("solution is %d x %d, expected %d x %d", Xc->n, Xc->m, B.n, A.n)); X = csr_dense(Xc, P, "solution"); if (ok) for (int i = 0; i < B.n; i++) okv[i] = ok[i]; hash_csr(Xc); }
	sim_end(); unchanged(bf, lu_bytes(f), "the factorization"); unchanged(bb, csr_bytes(Bc), "the right-hand sides"); int nok = 0;
	for (int i = 0; i < B.n; i++) { bool in = sp.contains(&B.a[(size_t) i * B.m]); nok += in; if (!in) probe(PR_R_UNSOLVABLE); if (has_ok && okv[i] != (int) in) violation("solvability", S("right-hand side %d reported %ssolvable", i, okv[i] ? "" : "not ")); 
		if (in) for (int j = 0; j < A.m; j++) { u64 v = 0; for (int k = 0; k < A.n; k++) v = (v + (u64) X.at(i, k) * A.at(k, j)) % P; if (v != B.at(i, j)) violation("solve", S("solution of right-hand side %d is wrong at column %d", i, j)); } }
	run_done(B.n > 0 && sp.rank() > 0);
}

// ------------------------------------------------------------------ certificates (C09, C10)
static void mk_hash(const Spec &s, u8 *h) { Rng r(mix64(s.get("hseed", 1))); for (int i = 0; i < 32; i++) h[i] = (u8) r.next(); }
struct CertCtx { Mat M; Dense A; struct spasm_csr *Ac; int rank; struct spasm_lu *f; u8 *hash; struct spasm_rank_certificate *c; };
static std::string cert_bytes(const struct spasm_rank_certificate *c) { std::string b; b.append((const char *) &c->r, 4); b.append((const char *) &c->prime, 8); b.append((const char *) c->hash, 32); if (c->r > 0) { b.append((const char *) c->i, c->r * 4); b.append((const char *) c->j, c->r * 4); b.append((const char *) c->x, c->r * 4); b.append((const char *) c->y, c->r * 4); } return b; }
static CertCtx mk_cert(const Spec &s) {
	CertCtx C; C.M = s.mats.at("A"); C.A = from_mat(C.M, s.prime); C.Ac = mk_csr(C.M, s.prime); C.rank = Space(C.A).rank(); C.f = get_fact(s, C.Ac, C.A, true, s.get("f.complete")); C.hash = (u8 *) spasm_malloc(32); mk_hash(s, C.hash); C.c = nullptr; std::string bf = lu_bytes(C.f);
	Outcome oc = sut([&] { C.c = spasm_certificate_rank_create(C.Ac, C.hash, C.f); }); must_return(oc, "spasm_certificate_rank_create"); own(C.c); unchanged(bf, lu_bytes(C.f), "the factorization");
	if (C.c->r != C.rank) violation("certificate", S("certificate claims rank %d, true rank is %d", C.c->r, C.rank)); return C;
}
static bool do_verify(const struct spasm_csr *A, const u8 *h, const struct spasm_rank_certificate *c) { bool v = false; std::string b = cert_bytes(c); Outcome oc = sut([&] { v = spasm_certificate_rank_verify(A, h, c); }); must_return(oc, "spasm_certificate_rank_verify"); unchanged(b, cert_bytes(c), "the certificate"); return v; }
SCEN(cert)
static void gen_cert(Rng &r, Spec &s) { s.prime = gen_prime(r); gen_fact(r, s, true); s.set("hseed", r.next() >> 2); s.set("vseed", r.next() >> 2); pol_to_spec(s, "w", gen_policy(r)); pol_to_spec(s, "r", gen_policy(r)); s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 40 : 20, r.chance(1, 6) ? 40 : 20, r.chance(1, 2)); }
static void run_cert(const Spec &s) {
	CertCtx C = mk_cert(s); std::string ba = csr_bytes(C.Ac);
	if (!do_verify(C.Ac, C.hash, C.c)) violation("honest-rejected", S("honest certificate of rank %d rejected", C.rank));
	bool v = false; Outcome oc = sut([&] { v = spasm_factorization_verify(C.Ac, C.f, (u64) s.get("vseed")); }); must_return(oc, "spasm_factorization_verify"); if (!v) violation("honest-rejected", "spasm_factorization_verify rejects a correct factorization");
	fs_policy("cert", pol_from_spec(s, "w")); FILE *fp = fs_open("cert", "w"); oc = sut([&] { spasm_rank_certificate_save(C.c, fp); }); must_return(oc, "spasm_rank_certificate_save"); fs_close(fp);
	fs_policy("cert", pol_from_spec(s, "r")); fp = fs_open("cert", "r"); struct spasm_rank_certificate *d = (struct spasm_rank_certificate *) spasm_malloc(sizeof *d); bool l = false;
	oc = sut([&] { l = spasm_rank_certificate_load(fp, d); }); must_return(oc, "spasm_rank_certificate_load"); own(d, false); fs_close(fp); if (!l) violation("honest-rejected", "saved certificate does not load");
	if (cert_bytes(C.c) != cert_bytes(d)) violation("certificate", "loaded certificate differs from the saved one");
	if (!do_verify(C.Ac, C.hash, d)) violation("honest-rejected", "honest certificate rejected after save and load");
	sim_end(); unchanged(ba, csr_bytes(C.Ac), "the matrix"); if (C.rank == 0) probe(PR_R_RANK0); std::string b = cert_bytes(C.c); note_hash(b.data(), b.size()); probe(PR_R_ACCEPT); run_done(C.rank > 0);
}
SCEN(certmut)
static void gen_certmut(Rng &r, Spec &s) {
	s.prime = r.chance(1, 2) ? r.pick<i64>({2147483647ll, 2147483659ll, 4294967279ll, 4294967291ll}) : gen_prime(r); gen_fact(r, s, true); if (r.chance(5, 6)) s.set("fsrc", 0); s.set("hseed", r.next() >> 2); s.set("mseed", r.next() >> 2); s.set("mut", r.below(25)); s.set("nmut", r.pick({1, 1, 1, 2, 4}));
	s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 6) ? 40 : 16, r.chance(1, 6) ? 40 : 16, r.chance(1, 2)); if (r.chance(1, 10)) s.mats["A"].e.clear();
	Mat B = s.mats["A"]; if (r.chance(1, 3) || B.e.empty()) { B = gen_matrix(r, s.prime, 16, 16); } else if (r.chance(1, 2)) { B.e.erase(B.e.begin() + r.below(B.e.size())); } else { auto &e = B.e[r.below(B.e.size())]; e.x = e.x == 1 ? -1 : 1; } s.mats["B"] = B;
}
static void run_certmut(const Spec &s) {
	CertCtx C = mk_cert(s); u64 P = s.prime; Rng r(s.get("mseed", 1)); int mut = s.get("mut"), rk = C.rank, n = C.A.n, m = C.A.m; bool bigp = P > 2000000000ull; struct spasm_rank_certificate *c = C.c; const char *lbl = "?"; probe(PR_CERT_MUT);
	auto nz = [&]() { i64 d = 1 + (i64) (r.next() % (P - 1)); return d; };
	auto alter = [&](spasm_ZZp *v) { for (int t = 0; t < s.get("nmut", 1); t++) { int k = r.below(rk); *(v + k) = *(v + k); (void) k; } };
	(void) alter;
	struct spasm_csr *Av = C.Ac; const u8 *hv = C.hash; int truer = rk; bool must_reject = false, prob = false;
	auto realloc_cert = [&](int nr) { int *i = (int *) spasm_malloc((i64) nr * 4), *j = (int *) spasm_malloc((i64) nr * 4); spasm_ZZp *x = (spasm_ZZp *) spasm_malloc((i64) nr * 4), *y = (spasm_ZZp *) spasm_malloc((i64) nr * 4); for (int k = 0; k < nr; k++) { i[k] = k < c->r ? c->i[k] : (n ? (int) r.below(n) : 0); j[k] = k < c->r ? c->j[k] : (m ? (int) r.below(m) : 0); x[k] = k < c->r ? c->x[k] : 0; y[k] = k < c->r ? c->y[k] : 0; if (k >= c->r && n && r.chance(1, 2)) x[k] = bal((u32) (r.next() % P), P); } own_block(c->i); own_block(c->j); own_block(c->x); own_block(c->y); c->i = i; c->j = j; c->x = x; c->y = y; c->r = nr; };
	switch (mut) {
	case 0: case 1: case 2: { lbl = "answer-x"; if (!rk) run_done(false); int k = r.below(rk); c->x[k] = bal((u32) ((nrm(c->x[k], P) + (u64) nz()) % P), P); must_reject = true; break; }
	case 3: case 4: case 5: { lbl = "answer-y"; if (!rk) run_done(false); int k = r.below(rk); c->y[k] = bal((u32) ((nrm(c->y[k], P) + (u64) nz()) % P), P); must_reject = true; break; }
	case 6: { lbl = "digest-in-proof"; c->hash[r.below(32)] ^= 1 << r.below(8); must_reject = true; break; }
	case 7: { lbl = "digest-of-input"; u8 *h2 = (u8 *) spasm_malloc(32); memcpy(h2, C.hash, 32); h2[r.below(32)] ^= 1 << r.below(8); hv = h2; must_reject = true; break; }
	case 8: { lbl = "modulus-in-proof"; c->prime += r.pick<i64>({-2, 2, 1, -1, 1ll << 32, (i64) P}); must_reject = true; break; }
	case 9: { lbl = "other-modulus"; i64 p2 = gen_prime(r); if (p2 == (i64) P) run_done(false); Av = mk_csr(C.M, p2); for (i64 t = 0; t < Av->p[Av->n]; t++) Av->x[t] = bal(nrm(Av->x[t], p2), p2); must_reject = true; break; }
	case 10: { lbl = "rank-minus-one"; if (!rk) run_done(false); if (r.chance(1, 2)) { int k = r.below(rk); c->i[k] = c->i[rk - 1]; c->j[k] = c->j[rk - 1]; c->x[k] = c->x[rk - 1]; c->y[k] = c->y[rk - 1]; } c->r = rk - 1; prob = true; break; }
	case 11: { lbl = "rank-plus"; if (n == 0 || m == 0) run_done(false); realloc_cert(rk + 1 + (int) r.below(3)); prob = true; break; }
	case 12: { lbl = "negative-rank"; c->r = -(int) r.pick({1, 1, 2, 1000, 2147483647}); must_reject = true; break; }
	case 13: { lbl = "duplicate-i"; if (rk < 2) run_done(false); c->i[r.below(rk)] = c->i[r.below(rk)]; prob = true; break; }
	case 14: { lbl = "duplicate-j"; if (rk < 2) run_done(false); c->j[r.below(rk)] = c->j[r.below(rk)]; prob = true; break; }
	case 15: { lbl = "out-of-range"; if (!rk) run_done(false); int k = r.below(rk); if (r.chance(1, 2)) c->i[k] = r.pick({-1, n, n + 1, 2147483647, -2147483647}); else c->j[k] = r.pick({-1, m, m + 1, 2147483647, -2147483647}); must_reject = true; break; }
	case 16: case 17: { lbl = "other-matrix"; Av = mk_csr(s.mats.at("B"), P); truer = Space(from_mat(s.mats.at("B"), P)).rank(); prob = true; break; }
	case 20: case 21: { lbl = "under-claim"; if (!rk) run_done(false); Rng q(s.get("fseed", 1)); RefFact F = ref_eliminate(C.A, q); int keep = r.chance(2, 3) ? rk - 1 : (int) r.below(rk); RefFact G = F; G.r = keep; G.U = Dense(keep, m, P); G.L = Dense(n, keep, P); G.p.resize(keep); G.piv.resize(keep); for (int k = 0; k < keep; k++) for (int j = 0; j < m; j++) G.U.at(k, j) = F.U.at(k, j); for (int i = 0; i < n; i++) for (int k = 0; k < keep; k++) G.L.at(i, k) = F.L.at(i, k);
		struct spasm_lu *f = lu_from(G, q, true, true); Outcome oc = sut([&] { c = spasm_certificate_rank_create(C.Ac, C.hash, f); }); if (!oc.ok()) run_done(false); own(c); prob = true; break; }   // answers computed from a factorization that misses pivots
	case 22: { lbl = "zero-rank"; if (!rk) run_done(false); c->r = 0; prob = true; break; }
	case 23: case 24: { lbl = "made-up"; if (!n || !m) run_done(false); realloc_cert(1 + (int) r.below(std::min(n, m))); int how = r.below(3); std::vector<int> pi(n), pj(m); for (int t = 0; t < n; t++) pi[t] = t; for (int t = 0; t < m; t++) pj[t] = t; for (int t = n - 1; t > 0; t--) std::swap(pi[t], pi[r.below(t + 1)]); for (int t = m - 1; t > 0; t--) std::swap(pj[t], pj[r.below(t + 1)]);
		for (int k = 0; k < c->r; k++) { if (how) { c->i[k] = pi[k]; c->j[k] = pj[k]; } if (how == 1) { c->x[k] = c->y[k] = 0; } if (how == 2) { c->x[k] = bal((u32) (r.next() % P), P); c->y[k] = bal((u32) (r.next() % P), P); } } prob = true; if (rk) must_reject = bigp && how; break; }
	default: { // factorization self-check
		lbl = mut == 18 ? "altered-U" : "altered-L"; if (!rk || !bigp) run_done(false); std::vector<int> pv(C.f->p, C.f->p + rk);
		if (mut == 18) { struct spasm_csr *U = C.f->U; i64 t = r.below(U->p[rk]); U->x[t] = bal((u32) ((nrm(U->x[t], P) + (u64) nz()) % P), P); } else { struct spasm_csr *L = C.f->L; int i = pv[r.below(rk)]; i64 a = L->p[i], b = L->p[i + 1]; i64 t = a + r.below(b - a); L->x[t] = bal((u32) ((nrm(L->x[t], P) + (u64) nz()) % P), P); }
		bool v = true; for (int t = 0; t < 3 && v; t++) { u64 seed = r.next(); Outcome oc = sut([&] { v = spasm_factorization_verify(C.Ac, C.f, seed); }); must_return(oc, "spasm_factorization_verify"); }
		sim_end(); note_outcome(lbl); if (v) violation("forged-accepted", S("%s: altered factorization accepted with three seeds", lbl)); probe(PR_R_REJECT); run_done(true); }
	}
	bool v = do_verify(Av, hv, c); sim_end(); note_outcome(lbl); note_hash(v); std::string b = cert_bytes(c); note_hash(b.data(), b.size());
	if (v && must_reject) violation("forged-accepted", S("%s: accepted although altered (claims rank %d)", lbl, c->r));
	if (v && prob && bigp && c->r != truer) violation("forged-accepted", S("%s: accepted with claimed rank %d, true rank %d", lbl, c->r, truer));
	probe(v ? PR_R_ACCEPT : PR_R_REJECT); run_done(true);
}
