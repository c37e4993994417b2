// Reference factorizations built by the harness (independent of the code under test), in simulated memory.
#pragma once
#include "harness.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
struct RefFact { Dense U, L; std::vector<int> p, piv; std::vector<std::vector<int>> uord; int r = 0; };   // U: r x m, L: n x r
// random-order, random-pivot elimination of the given rows of A (all rows if rows==nullptr)
inline RefFact ref_eliminate(const Dense &A, Rng &r, const std::vector<int> *rows = nullptr) {
	RefFact F; int n = A.n, m = A.m; u64 p = A.p; std::vector<int> ord; if (rows) ord = *rows; else { for (int i = 0; i < n; i++) ord.push_back(i); }
	for (int i = (int) ord.size() - 1; i > 0; i--) std::swap(ord[i], ord[r.below(i + 1)]);
	std::vector<Row> U; std::vector<std::vector<std::pair<int, u32>>> Ln(n); bool sparsepiv = r.chance(1, 2);
	for (int i : ord) {
		Row w(A.a.begin() + (size_t) i * m, A.a.begin() + (size_t) (i + 1) * m);
		for (size_t k = 0; k < U.size(); k++) if (u64 c = w[F.piv[k]]) { Ln[i].push_back({(int) k, (u32) c}); for (int j = 0; j < m; j++) w[j] = (u32) ((w[j] + (p - c) * U[k][j]) % p); }
		std::vector<int> nz; for (int j = 0; j < m; j++) if (w[j]) nz.push_back(j);
		if (nz.empty()) continue;
		int j = sparsepiv ? nz[0] : nz[r.below(nz.size())]; u64 c = w[j], ic = inv_mod((u32) c, p); for (auto &x : w) x = (u32) (x * ic % p);
		Ln[i].push_back({(int) U.size(), (u32) c}); F.p.push_back(i); F.piv.push_back(j); U.push_back(w);
	}
	F.r = U.size(); F.U = Dense(F.r, m, p); for (int k = 0; k < F.r; k++) std::copy(U[k].begin(), U[k].end(), F.U.a.begin() + (size_t) k * m);
	F.L = Dense(n, F.r, p); for (int i = 0; i < n; i++) for (auto &x : Ln[i]) F.L.at(i, x.first) = x.second;
	return F;
}
inline spasm_ZZp bal(u32 v, u64 p) { return v > p / 2 ? (spasm_ZZp) ((i64) v - (i64) p) : (spasm_ZZp) v; }
// pivot (if given) first on each row, the rest shuffled or sorted
inline struct spasm_csr *dense_csr(const Dense &D, Rng &r, const std::vector<int> *first = nullptr) {
	i64 nz = 0; for (u32 x : D.a) nz += x != 0;
	struct spasm_csr *C = spasm_csr_alloc(D.n, D.m, nz, D.p, true); i64 k = 0; C->p[0] = 0; bool shuf = r.chance(2, 3);
	for (int i = 0; i < D.n; i++) { std::vector<int> js; if (first) js.push_back((*first)[i]); for (int j = 0; j < D.m; j++) if (D.at(i, j) && !(first && j == (*first)[i])) js.push_back(j);
		if (shuf) for (int t = (int) js.size() - 1, lo = first ? 1 : 0; t > lo; t--) std::swap(js[t], js[lo + r.below(t + 1 - lo)]);
		for (int j : js) { C->j[k] = j; C->x[k] = bal(D.at(i, j), D.p); k++; } C->p[i + 1] = k; }
	return C;
}
inline struct spasm_lu *lu_from(const RefFact &F, Rng &r, bool wantL, bool complete) {
	struct spasm_lu *f = (struct spasm_lu *) spasm_malloc(sizeof *f); memset(f, 0, sizeof *f); f->r = F.r; f->complete = wantL && complete; f->U = dense_csr(F.U, r, &F.piv);
	f->qinv = (int *) spasm_malloc((i64) F.U.m * sizeof(int)); for (int j = 0; j < F.U.m; j++) f->qinv[j] = -1; for (int k = 0; k < F.r; k++) f->qinv[F.piv[k]] = k;
	if (wantL) { Dense L = F.L; if (!complete) { std::vector<char> pv(L.n, 0); for (int i : F.p) pv[i] = 1; for (int i = 0; i < L.n; i++) if (!pv[i]) for (int j = 0; j < L.m; j++) L.at(i, j) = 0; }
		f->L = dense_csr(L, r); f->p = (int *) spasm_malloc((i64) std::max(1, F.r) * sizeof(int)); for (int k = 0; k < F.r; k++) f->p[k] = F.p[k]; }
	return f;
}
// reduced form of the harness-built U, rows in random order
struct RefRref { Dense R; std::vector<int> piv; };
inline RefRref ref_reduce(const RefFact &F, Rng &r) {
	Dense R = F.U; u64 p = R.p; for (int k = F.r - 1; k >= 0; k--) for (int i = 0; i < k; i++) if (u64 c = R.at(i, F.piv[k])) for (int j = 0; j < R.m; j++) R.at(i, j) = (u32) ((R.at(i, j) + (p - c) * R.at(k, j)) % p);
	std::vector<int> o(F.r); for (int i = 0; i < F.r; i++) o[i] = i; for (int i = F.r - 1; i > 0; i--) std::swap(o[i], o[r.below(i + 1)]);
	RefRref Q; Q.R = Dense(F.r, R.m, p); for (int i = 0; i < F.r; i++) { Q.piv.push_back(F.piv[o[i]]); for (int j = 0; j < R.m; j++) Q.R.at(i, j) = R.at(o[i], j); }
	return Q;
}
// a factorization of A for the run: harness-built (k "fsrc" = 0) or computed by the code under test
struct spasm_lu *get_fact(const Spec &s, const struct spasm_csr *Ac, const Dense &A, bool wantL, bool complete, RefFact *ref = nullptr);
std::string lu_bytes(const struct spasm_lu *f);
