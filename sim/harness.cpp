#include <cerrno>
#include "harness.h"
#include <cstdarg>
#include <algorithm>
#include <cmath>
#include <set>

std::string S(const char *fmt, ...) { char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }

// ------------------------------------------------------------------ generation
static const i64 SMALLP[] = {3, 5, 7, 13, 31, 127, 257, 8191, 8209, 42013, 65537, 67108859, 189812507, 189812533, 2147483647, 2147483659ll, 4294967279ll, 4294967291ll};
static bool is_prime(i64 p) { if (p < 2) return false; for (i64 d = 2; d * d <= p; d++) if (p % d == 0) return false; return true; }
i64 gen_prime(Rng &r) {
	int c = r.below(10);
	if (c < 3) return 42013;
	if (c < 9) { for (;;) { i64 p = SMALLP[r.below(sizeof SMALLP / sizeof *SMALLP)]; if (is_prime(p)) return p; } }
	i64 p = (i64) (3 + r.below(r.chance(1, 2) ? 1000 : 4294967000ull)) | 1; while (!is_prime(p)) { p += 2; if (p > 4294967291ll) p = 3; } return p;
}
void gen_env(Rng &r, Spec &s) {
	s.T = r.chance(1, 12) ? 1 : r.chance(1, 10) ? (r.chance(1, 6) ? (int) r.range(13, 80) : (int) r.range(7, 12)) : (int) r.range(2, 5);
	s.set("pol", r.pick({0, 0, 0, 1, 1, 2, 3, 3}));
	s.set("mean", r.pick({30, 100, 100, 400, 400, 1500, 6000, 40000}));
	s.set("hot", r.pick({1, 10, 40, 40, 200}));
	s.set("sync", r.pick({1, 30, 150, 150, 600}));
	s.set("stall", r.pick({1000, 30000, 200000})); if (r.chance(1, 8)) { s.set("burst", r.pick({100000, 1000000, 5000000})); s.set("burstat", r.pick({3, 8, 40})); }
	s.set("junk", r.pick({0, 1, 2, 3, 3, 4, 5, 5}));
	s.set("chunkmode", r.pick({0, 1, 1, 2, 3}));
	s.set("clockmode", r.pick({0, 0, 0, 1, 2}));
	s.set("randmode", r.pick({0, 0, 0, 0, 0, 1, 2, 3}));
	s.set("randconst", r.pick({0, 1, 7, 12345, 2147483647}));
}
void gen_opts(Rng &r, Spec &s, bool wantL) {
	s.set("o.greedy", !r.chance(1, 4));
	s.set("o.tall", r.chance(2, 3));
	s.set("o.dense", r.chance(2, 3));
	s.set("o.gplu", 1);
	s.set("o.L", wantL); s.set("o.complete", wantL && r.chance(1, 2));
	s.set("o.minpiv", r.pick({-1000, 0, 0, 0, 100, 100, 500, 1000}));
	s.set("o.rounds", r.pick({-1, 0, 0, 1, 1, 2, 3, 3, 5, 10}));
	s.set("o.thr", r.pick({-1000, -1000, 0, 10, 50, 50, 200, 500, 1000, 2000}));
	s.set("o.tallratio", r.pick({-1000, 0, 500, 1000, 2000, 5000, 5000, 1000000}));
	s.set("o.blk", r.pick({1, 2, 3, 5, 8, 20, 1000}));
	s.set("o.lowratio", r.pick({-1000, 0, 100, 500, 500, 900, 1000, 2000}));
	s.set("o.w", r.pick({-1, -1, 0, 1, 1, 2, 5, 100}));
	if (r.chance(1, 2)) { // several rounds of elimination before the final phase
		s.set("o.greedy", r.chance(1, 4)); s.set("o.minpiv", r.pick({-1000, -1000, 0, 20})); s.set("o.rounds", r.pick({1, 2, 3, 5, 10, 30}));
		s.set("o.thr", r.chance(1, 4) ? 2000 : r.range(20, 600)); if (r.chance(1, 2)) { s.set("o.tallratio", 1000000); s.set("o.dense", 1); s.set("o.blk", r.pick({1, 2, 3, 5})); s.set("o.lowratio", r.pick({500, 900, 1000, 1000, 2000})); } }
	s.set("hard", r.chance(3, 4));
	if (!wantL && r.chance(1, 12)) { s.set("o.gplu", 0); s.set("o.dense", 1); s.set("o.thr", -1000); }
}
struct echelonize_opts mk_opts(const Spec &s) {
	struct echelonize_opts o; memset(&o, 0, sizeof o); spasm_echelonize_init_opts(&o);
	if (s.get("o.default", 0)) { o.L = s.get("o.L"); o.complete = s.get("o.complete"); return o; }
	o.enable_greedy_pivot_search = s.get("o.greedy", 1); o.enable_tall_and_skinny = s.get("o.tall", 1); o.enable_dense = s.get("o.dense", 1); o.enable_GPLU = s.get("o.gplu", 1);
	o.L = s.get("o.L"); o.complete = s.get("o.complete"); o.min_pivot_proportion = s.get("o.minpiv", 100) / 1000.; o.max_round = s.get("o.rounds", 3);
	o.sparsity_threshold = s.get("o.thr", 50) / 1000.; o.tall_and_skinny_ratio = s.get("o.tallratio", 5000) / 1000.; o.dense_block_size = s.get("o.blk", 1000);
	o.low_rank_ratio = s.get("o.lowratio", 500) / 1000.; o.low_rank_start_weight = s.get("o.w", -1);
	return o;
}
static i64 gen_val(Rng &r, u64 p, int mode) {
	for (;;) {
		i64 v;
		switch (mode) { case 0: v = r.chance(1, 2) ? 1 : -1; break; case 1: v = r.range(-3, 3); break;
		case 2: v = (i64) (p / 2) - (i64) r.below(3) * (r.chance(1, 2) ? 1 : -1); break; default: v = (i64) (r.next() % p); }
		u32 x = nrm(v, p); if (x) return x > p / 2 ? (i64) x - (i64) p : (i64) x;
	}
}
// a hundred rows or more: limits, growth and thresholds that small matrices never reach
static Mat gen_large(Rng &r, u64 p) {
	int big = r.chance(1, 30) ? 450 : r.pick({60, 60, 250}), n = 70 + r.below(big), m = 70 + r.below(r.chance(1, 2) ? big : 60), st = r.below(8), vm = r.below(4); if (r.chance(1, 6)) m = 3 + r.below(20); else if (r.chance(1, 8)) n = 3 + r.below(20); if (r.chance(1, 14)) { n = 1000 + r.below(r.chance(1, 3) ? 2200 : 1100); m = 3 + r.below(12); if (r.chance(1, 5)) std::swap(n, m); st = r.pick({0, 1, 3, 5, 7}); }   // above a thousand rows some loops and reports change their stride
	std::map<std::pair<int, int>, i64> E; auto put = [&](int i, int j) { E[{i, j}] = gen_val(r, p, vm); }; int k = std::max(1, std::min(n, m));
	auto rnd = [&](int i0, int i1, int j0, int j1, int cnt) { for (int t = 0; t < cnt && i1 > i0 && j1 > j0; t++) put(i0 + r.below(i1 - i0), j0 + r.below(j1 - j0)); };
	switch (st) {
	case 0: case 1: rnd(0, n, 0, m, (n + m) * r.pick({1, 1, 2})); break;
	case 2: { int w = 1 + r.below(3); for (int i = 0; i < n; i++) for (int j = (int) ((i64) i * m / n) - w; j <= (int) ((i64) i * m / n) + w; j++) if (j >= 0 && j < m && r.chance(2, 3)) put(i, j); break; }  // band
	case 3: { int c = 1 + r.below(std::max(1, m / 8)); for (int i = 0; i < n; i++) { put(i, r.below(c)); for (int t = r.below(3); t >= 0; t--) put(i, r.below(m)); } break; }   // shared leftmost columns
	case 4: { for (int i = 0; i < k; i++) put(i, i); rnd(0, n, 0, m, k / 2); rnd(n - std::min(n, 20), n, m - std::min(m, 20), m, 150); break; }   // diagonal and a small dense corner
	case 5: { int h = 1 + r.below(std::min(n, 40)); rnd(0, h, 0, m, h * 4); for (int i = h; i < n; i++) { int a = r.below(h); i64 c = gen_val(r, p, vm); for (auto it = E.lower_bound({a, 0}); it != E.end() && it->first.first == a; ++it) { u32 v = (u32) ((u64) nrm(it->second, p) * nrm(c, p) % p); if (v) E[{i, it->first.second}] = v > p / 2 ? (i64) v - (i64) p : (i64) v; } } if (r.chance(2, 3)) for (int t = 1 + r.below(3); t > 0; t--) put(n - 1 - r.below(std::min(n, 5)), r.below(m)); break; }   // long run of multiples, a few independent rows at the end
	case 6: { int b = r.chance(1, 2) ? 25 : 12; for (int i = 0; i < n; i++) { put(i, r.below(m)); if (i < b) for (int j = 0; j < m; j++) if (r.chance(1, 2)) put(i, j); } break; }   // a few long rows
	default: { int z = r.below(n); for (int i = z; i < n; i++) for (int t = 1 + r.below(3); t > 0; t--) put(i, r.below(m)); break; }   // leading empty rows
	}
	Mat M; M.n = n; M.m = m; for (auto &e : E) M.e.push_back({e.first.first, e.first.second, e.second}); return M;
}
// more than 65536 rows or columns, few entries
Mat gen_wide(Rng &r, u64 p) {
	int n = 3 + r.below(5), m = 65500 + r.below(600), vm = r.below(4), tot = n * (2 + r.below(6)); std::map<std::pair<int, int>, i64> E;
	for (int t = 0; t < tot; t++) E[{(int) r.below(n), r.chance(1, 2) ? 65530 + (int) r.below(m > 65540 ? m - 65530 : 1) % std::max(1, m - 65530) : (int) r.below(m)}] = gen_val(r, p, vm);
	bool tall = r.chance(1, 4); Mat M; M.n = tall ? m : n; M.m = tall ? n : m; for (auto &e : E) if (e.first.second < m) M.e.push_back(tall ? Entry{e.first.second, e.first.first, e.second} : Entry{e.first.first, e.first.second, e.second}); return M;
}
Mat gen_matrix(Rng &r, u64 p, int maxn, int maxm, bool hard) {
	if (maxn >= 12 && maxm >= 12 && r.chance(1, 14)) return gen_large(r, p);
	int st = hard && r.chance(2, 3) ? r.pick({12, 12, 16, 16, 17, 4, 13}) : (int) r.below(18), vm = r.below(4);
	int n = 1 + r.below(r.chance(1, hard ? 8 : 3) ? std::min(maxn, 6) : maxn), m = 1 + r.below(r.chance(1, hard ? 8 : 3) ? std::min(maxm, 6) : maxm);
	if (r.chance(1, 60)) n = 0; if (r.chance(1, 60)) m = 0;
	if (r.chance(1, 8)) m = std::max(1, n / 4); else if (r.chance(1, 8)) n = std::max(1, m / 4);
	Dense D(n, m, p);
	auto rv = [&]() { return nrm(gen_val(r, p, vm), p); };
	double d = hard ? r.pick({0.1, 0.15, 0.2, 0.3, 0.5}) : r.pick({0.02, 0.05, 0.1, 0.1, 0.2, 0.3, 0.6});
	auto sparse = [&](double q) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (r.unit() < q) D.at(i, j) = rv(); };
	if (n && m) switch (st) {
	case 0: case 1: case 2: sparse(d); break;
	case 3: { int k = 1 + r.below(std::max(1, std::min(n, m) / 2)); Dense X(n, k, p), Y(k, m, p); for (auto &x : X.a) x = rv(); for (auto &x : Y.a) x = rv(); D = mul(X, Y); break; }  // dense, low rank
	case 4: case 5: { int k = 1 + r.below(std::min(n, m)); std::vector<Row> base(k, Row(m, 0)); for (auto &b : base) for (auto &x : b) if (r.unit() < d) x = rv(); // sparse, low rank
		for (int i = 0; i < n; i++) for (int t = 0; t < 1 + (int) r.below(3); t++) { auto &b = base[r.below(k)]; u64 c = rv(); for (int j = 0; j < m; j++) D.at(i, j) = (D.at(i, j) + c * b[j]) % p; } break; }
	case 6: for (int i = 0; i < n; i++) { for (int j = i; j < m; j++) if (j == i ? r.chance(9, 10) : r.unit() < d) D.at(i, j) = rv(); } break;   // triangular
	case 7: { int w = 1 + r.below(4); for (int i = 0; i < n; i++) for (int j = std::max(0, i - w); j < std::min(m, i + w + 1); j++) if (r.chance(3, 4)) D.at(i, j) = rv(); break; } // banded
	case 8: { sparse(d); for (int i = 0; i < n; i++) if (r.chance(1, 3)) { int k = r.below(n); u64 c = rv(); for (int j = 0; j < m; j++) D.at(i, j) = D.at(k, j) * c % p; } break; } // duplicate rows
	case 9: { sparse(d); int z = r.below(n + 1); bool first = r.chance(1, 2); for (int i = 0; i < z; i++) for (int j = 0; j < m; j++) D.at(first ? i : n - 1 - i, j) = 0; break; } // zero rows first / last
	case 10: { for (int i = 0; i < std::min(n, m); i++) D.at(i, i) = rv(); if (r.chance(1, 2)) for (int i = 0; i < n; i++) D.at(i, r.below(m)) = rv(); break; }
	case 11: sparse(1.0); break;
	case 12: { // rows sharing leftmost columns: few FL pivots, many rounds
		int w = 1 + r.below(std::max(1, m / 4)); for (int i = 0; i < n; i++) { D.at(i, r.below(w)) = rv(); for (int t = 0; t < 1 + (int) r.below(3); t++) D.at(i, r.below(m)) = rv(); } break; }
	case 13: { // dense block in a sparse frame
		int a = r.below(n) / 2, b = r.below(m) / 2; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (i >= a && j >= b ? r.chance(9, 10) : (i == j || r.unit() < 0.05)) D.at(i, j) = rv(); break; }
	case 14: { // low-rank tail after an independent head
		sparse(d); int h = r.below(n); for (int i = h; i < n; i++) { for (int j = 0; j < m; j++) D.at(i, j) = 0; for (int t = 0; t < 2 && h > 0; t++) { int k = r.below(h); u64 c = rv(); for (int j = 0; j < m; j++) D.at(i, j) = (D.at(i, j) + c * D.at(k, j)) % p; } }
		if (n > 2 && r.chance(1, 2)) { int k = r.chance(1, 2) ? n - 1 : (int) r.below(n); D.at(k, r.below(m)) = rv(); } break; }
	case 16: { // groups of rows with the same leftmost columns, remainder sparse: few structural pivots, growing Schur complements
		int g = 1 + r.below(std::max(1, std::min(n, m) / 2)); double q = r.pick({0.03, 0.08, 0.15, 0.3}); int dup = r.below(3);
		for (int i = 0; i < n; i++) { int c = r.below(g); D.at(i, c) = rv(); for (int j = c + 1; j < m; j++) if (r.unit() < q) D.at(i, j) = rv(); if (dup && i > 0 && r.chance(dup, 4)) { int k = r.below(i); u64 c2 = rv(); for (int j = 0; j < m; j++) D.at(i, j) = (D.at(i, j) + c2 * D.at(k, j)) % p; } } break; }
	case 17: { // sparse times sparse: moderate rank, fill-in
		int k = 1 + r.below(std::min(n, m)); Dense X(n, k, p), Y(k, m, p); double q = 1.5 / k; for (auto &x : X.a) if (r.unit() < q) x = rv(); for (auto &y : Y.a) if (r.unit() < d) y = rv(); D = mul(X, Y); break; }
	case 15: { // bipartite graph incidence: two ones per row
		for (int i = 0; i < n; i++) { D.at(i, r.below(m)) = 1; D.at(i, r.below(m)) = (u32) (p - 1); } break; }
	}
	std::vector<int> pr(n), pc(m); for (int i = 0; i < n; i++) pr[i] = i; for (int j = 0; j < m; j++) pc[j] = j;
	if (st != 9 && st != 14 && st != 16 && st != 12 && r.chance(1, 2)) { for (int i = n - 1; i > 0; i--) std::swap(pr[i], pr[r.below(i + 1)]); for (int j = m - 1; j > 0; j--) std::swap(pc[j], pc[r.below(j + 1)]); }
	Mat M; M.n = n; M.m = m;
	bool shuf = r.chance(1, 2);
	for (int i = 0; i < n; i++) { std::vector<Entry> row; for (int j = 0; j < m; j++) if (u32 x = D.at(pr[i], pc[j])) row.push_back({i, j, x > p / 2 ? (i64) x - (i64) p : (i64) x});
		if (shuf) for (int k = (int) row.size() - 1; k > 0; k--) std::swap(row[k], row[r.below(k + 1)]);
		for (auto &e : row) M.e.push_back(e); }
	return M;
}
StreamPolicy gen_policy(Rng &r) { StreamPolicy p; p.bufsize = r.pick({1, 2, 3, 7, 16, 64, 100, 512, 4096, 65536}); p.chunkmode = r.pick({0, 1, 2, 2, 3, 3}); p.chunkseed = r.next() >> 2; return p; }
void pol_to_spec(Spec &s, const char *pfx, const StreamPolicy &p) { std::string x(pfx); s.k[x + ".buf"] = p.bufsize; s.k[x + ".mode"] = p.chunkmode; s.k[x + ".seed"] = (i64) p.chunkseed; }
StreamPolicy pol_from_spec(const Spec &s, const char *pfx) { std::string x(pfx); StreamPolicy p; p.bufsize = s.get((x + ".buf").c_str(), 4096); p.chunkmode = s.get((x + ".mode").c_str()); p.chunkseed = s.get((x + ".seed").c_str());
	static const int errs[] = {0, EIO, ENOSPC, EPIPE, EAGAIN, EINTR, EDQUOT, EFBIG, EBADF, ESTALE, ETIMEDOUT, ECONNRESET};
	for (auto &f : s.faults) {
		if (f.kind == x + ".once") { p.err_once = p.eio_once = f.a; } if (f.kind == x + ".once" || f.kind == x + ".eio" || f.kind == x + ".errcall") p.err = errs[(u64) f.c % (sizeof errs / sizeof *errs)];
		if (f.kind == x + ".eio") p.eio_at = f.a; else if (f.kind == x + ".eof") p.eof_at = f.a; else if (f.kind == x + ".nospc") p.nospc_at = f.a; else if (f.kind == x + ".crash") p.crash_at = f.a;
		else if (f.kind == x + ".flip") p.flips.push_back({f.a, (u8) f.b}); else if (f.kind == x + ".errcall") p.err_after_calls = f.a; else if (f.kind == x + ".noopen") p.bufsize = -99; }
	return p; }

// ------------------------------------------------------------------ conversions
struct spasm_csr *mk_csr(const Mat &M, i64 p, bool vals) {
	struct spasm_csr *A = spasm_csr_alloc(M.n, M.m, M.e.size(), p, vals);
	std::vector<i64> cnt(M.n + 1, 0); for (auto &e : M.e) cnt[e.i + 1]++;
	for (int i = 0; i < M.n; i++) cnt[i + 1] += cnt[i];
	for (int i = 0; i <= M.n; i++) A->p[i] = cnt[i];
	std::vector<i64> w(cnt.begin(), cnt.end());
	for (auto &e : M.e) { i64 px = w[e.i]++; A->j[px] = e.j; if (vals) A->x[px] = (spasm_ZZp) e.x; }
	return A;
}
std::string csr_bytes(const struct spasm_csr *A) {
	std::string s; auto add = [&](const void *p, size_t n) { s.append((const char *) p, n); };
	add(&A->n, 4); add(&A->m, 4); add(A->p, (A->n + 1) * sizeof(i64)); i64 nz = A->p[A->n]; if (nz) { add(A->j, nz * 4); if (A->x) add(A->x, nz * 4); } return s;
}
Dense csr_dense(const struct spasm_csr *A, u64 p, const char *what, bool nozero) {
	if (A == nullptr) violation("structure", S("%s: NULL matrix", what));
	if (A->n < 0 || A->m < 0) violation("structure", S("%s: negative dimension", what));
	if (A->field->p != (i64) p) violation("structure", S("%s: modulus is %lld instead of %llu", what, (long long) A->field->p, (unsigned long long) p));
	if (!heap_ptr_live(A->p, (A->n + 1) * sizeof(i64))) violation("structure", S("%s: row pointers not live", what));
	if (A->p[0] != 0) violation("structure", S("%s: first row pointer is %lld", what, (long long) A->p[0]));
	for (int i = 0; i < A->n; i++) if (A->p[i + 1] < A->p[i]) violation("structure", S("%s: row pointers decrease at row %d", what, i));
	i64 nz = A->p[A->n]; if (nz < 0 || nz > (i64) 1e8) violation("structure", S("%s: bad number of entries %lld", what, (long long) nz));
	if (nz) { if (!heap_ptr_live(A->j, nz * 4)) violation("structure", S("%s: column indices not live", what)); if (!A->x || !heap_ptr_live(A->x, nz * 4)) violation("structure", S("%s: values missing or not live", what)); }
	Dense D(A->n, A->m, p); std::vector<int> seen(A->m, -1);
	for (int i = 0; i < A->n; i++) for (i64 px = A->p[i]; px < A->p[i + 1]; px++) {
		int j = A->j[px]; if (j < 0 || j >= A->m) violation("structure", S("%s: column index %d out of range (row %d, %d columns)", what, j, i, A->m));
		if (seen[j] == i) violation("structure", S("%s: duplicate entry (%d, %d)", what, i, j)); seen[j] = i;
		u32 v = nrm(A->x[px], p); if (nozero && v == 0) violation("structure", S("%s: explicit zero at (%d, %d)", what, i, j));
		D.at(i, j) = v; }
	return D;
}
static const char *kindcls(const Outcome &o, std::string &tmp) {
	switch (o.kind) { case O_EXIT: return "exit"; case O_ABORT: return "abort"; case O_HANG: return "hang"; case O_DEADLOCK: return "deadlock";
	case O_MEM: { size_t c = o.msg.find(':', 4); tmp = o.msg.substr(0, c == std::string::npos ? 40 : c); return tmp.c_str(); } default: return "returned"; } }
void must_return(const Outcome &o, const char *what) {
	if (o.ok()) return;
	if (RES->probe[PR_ALLOC_FAIL] && o.failstop()) { // the documented answer to a failed allocation
		probe(PR_R_FAILSTOP); note_outcome("failstop"); note_hash(o.kind); if (sim_log.empty()) violation("silent", "stopped without an error report"); run_done(true); }
	std::string t, tail = sim_log.size() > 200 ? sim_log.substr(sim_log.size() - 200) : sim_log;
	violation(kindcls(o, t), S("%s did not complete: %s; last log: %s", what, o.str().c_str(), tail.c_str()));
}
void reach_probes() {
	if (log_has("round 1\n")) probe(PR_R_MULTIROUND); if (log_has("[echelonize/GPLU]")) probe(PR_R_GPLU); if (log_has("[echelonize/dense] processing")) probe(PR_R_DENSE);
	if (log_has("[echelonize/dense/low-rank]")) probe(PR_R_LOWRANK); if (log_has("switching to low-rank")) probe(PR_R_LOWRANK_SWITCH); if (log_has("Testing completion")) probe(PR_R_COMPLETION);
	if (log_has("full rank reached")) probe(PR_R_FULLRANK); if (log_has("empty matrix")) probe(PR_R_EMPTY);
}

// ------------------------------------------------------------------ oracles
static void check_echelon_struct(const Dense &U, const struct spasm_csr *Uc, const int *qinv, const char *what) {
	int r = U.n, m = U.m; std::vector<int> q(r, -1);
	if (m && !heap_ptr_live(qinv, m * 4)) violation("echelon", S("%s: pivot map not live", what));
	for (int j = 0; j < m; j++) { int i = qinv[j]; if (i < -1 || i >= r) violation("echelon", S("%s: pivot map entry %d for column %d out of range (rank %d)", what, i, j, r));
		if (i >= 0) { if (q[i] >= 0) violation("echelon", S("%s: row %d has two pivots", what, i)); q[i] = j; } }
	for (int i = 0; i < r; i++) {
		if (q[i] < 0) violation("echelon", S("%s: row %d has no pivot in the pivot map", what, i));
		if (Uc->p[i + 1] == Uc->p[i] || Uc->j[Uc->p[i]] != q[i]) violation("echelon", S("%s: pivot of row %d is not its first entry", what, i));
		if (U.at(i, q[i]) != 1) violation("echelon", S("%s: pivot of row %d is %u, not 1", what, i, U.at(i, q[i])));
		for (int k = i + 1; k < r; k++) if (U.at(k, q[i])) violation("echelon", S("%s: not triangular: row %d has a nonzero on the pivot column of row %d", what, k, i));
	}
}
void check_echelon(const Dense &A, const struct spasm_lu *f, const char *what) {
	if (!f || !f->U) violation("echelon", S("%s: no factorization", what));
	Space RS(A); const struct spasm_csr *Uc = f->U; int rk = RS.rank();
	if (f->r != rk || Uc->n != rk) violation("rank", S("%s: rank reported %d (basis has %d rows), true rank is %d (matrix %d x %d mod %llu)", what, f->r, Uc->n, rk, A.n, A.m, (unsigned long long) A.p));
	if (Uc->m != A.m) violation("echelon", S("%s: basis has %d columns instead of %d", what, Uc->m, A.m));
	Dense U = csr_dense(Uc, A.p, what);
	check_echelon_struct(U, Uc, f->qinv, what);
	for (int i = 0; i < U.n; i++) if (!RS.contains(&U.a[(size_t) i * U.m])) violation("rowspace", S("%s: row %d of the basis is not in the row space of the input", what, i));
}
void check_pluq(const Dense &A, const struct spasm_lu *f, bool complete, const char *what) {
	if (!f->L) violation("pluq", S("%s: L missing", what));
	Dense U = csr_dense(f->U, A.p, "U"), L = csr_dense(f->L, A.p, "L");
	int r = f->r;
	if (L.n != A.n || L.m != r) violation("pluq", S("%s: L is %d x %d, expected %d x %d", what, L.n, L.m, A.n, r));
	if (f->complete != complete) violation("pluq", S("%s: complete flag is %d", what, f->complete));
	std::vector<int> seen(A.n, -1);
	if (r && !heap_ptr_live(f->p, r * 4)) violation("pluq", S("%s: row permutation not live", what));
	for (int k = 0; k < r; k++) { int i = f->p[k]; if (i < 0 || i >= A.n) violation("pluq", S("%s: pivotal row %d of step %d out of range", what, i, k)); if (seen[i] >= 0) violation("pluq", S("%s: row %d is pivotal twice", what, i)); seen[i] = k; }
	for (int k = 0; k < r; k++) { int i = f->p[k]; if (L.at(i, k) == 0) violation("pluq", S("%s: zero diagonal entry of L at step %d", what, k)); for (int c = k + 1; c < r; c++) if (L.at(i, c)) violation("pluq", S("%s: L not triangular: pivotal row %d (step %d) has an entry in column %d", what, i, k, c)); }
	Dense P = mul(L, U);
	for (int i = 0; i < A.n; i++) if (complete || seen[i] >= 0) for (int j = 0; j < A.m; j++) if (P.at(i, j) != A.at(i, j)) violation("pluq", S("%s: (L*U)[%d,%d] = %u but the input has %u (row is %spivotal, complete=%d)", what, i, j, P.at(i, j), A.at(i, j), seen[i] >= 0 ? "" : "not ", complete));
}
void check_rref(const Space &RS, const struct spasm_csr *Rc, const int *Rq, u64 p, const char *what) {
	Dense R = csr_dense(Rc, p, what); if (R.m != RS.R.m) violation("rref", S("%s: wrong number of columns", what));
	if (R.n != RS.rank()) violation("rank", S("%s: %d rows, true rank %d", what, R.n, RS.rank()));
	check_echelon_struct(R, Rc, Rq, what);
	for (int j = 0; j < R.m; j++) if (Rq[j] >= 0) for (int i = 0; i < R.n; i++) if (i != Rq[j] && R.at(i, j)) violation("rref", S("%s: row %d has a nonzero on pivot column %d", what, i, j));
	for (int i = 0; i < R.n; i++) if (!RS.contains(&R.a[(size_t) i * R.m])) violation("rowspace", S("%s: row %d not in the row space", what, i));
}
void check_kernel(const Dense &A, int rank, const struct spasm_csr *Kc, u64 p, const char *what) {
	Dense K = csr_dense(Kc, p, what); if (K.m != A.m) violation("kernel", S("%s: %d columns, expected %d", what, K.m, A.m));
	if (K.n != A.m - rank) violation("kernel", S("%s: %d rows, expected %d - %d", what, K.n, A.m, rank));
	for (int t = 0; t < K.n; t++) for (int i = 0; i < A.n; i++) { u64 s = 0; for (int j = 0; j < A.m; j++) if (A.at(i, j) && K.at(t, j)) s = (s + (u64) A.at(i, j) * K.at(t, j)) % p; if (s) violation("kernel", S("%s: row %d is not annihilated by row %d of the input", what, t, i)); }
	if (rank_of(K) != K.n) violation("kernel", S("%s: rows are linearly dependent", what));
}

// ------------------------------------------------------------------ registry
static std::vector<Scen> &scens() { static std::vector<Scen> v; return v; }
void reg_scen(const Scen &s) { scens().push_back(s); }
const Scen *find_scen(const std::string &n) { for (auto &s : scens()) if (n == s.name) return &s; return nullptr; }
static const char *lib_scens[] = {"ech", "echL", "pivots", "schur", "schurd", "schurr", "rref", "kernel", "gesv", "cert", "load", "roundtrip", "multi"};
static bool is_lib(const std::string &n) { for (auto x : lib_scens) if (n == x) return true; return n == "certmut" || n == "certload" || n == "badload"; }
void gen_for(const std::string &prop, u64 seed, Spec &s, const char *force_scen) {
	const PropDef *pd = find_prop(prop); if (!pd) harness_error("unknown property " + prop);
	Rng r(seed); s = Spec(); s.prop = prop; s.seed = seed;
	int tot = 0; for (auto &x : pd->scens) tot += x.first; int c = r.below(tot); const char *nm = nullptr;
	for (auto &x : pd->scens) { if (c < x.first) { nm = x.second; break; } c -= x.first; }
	if (force_scen) nm = force_scen;
	s.scen = nm; gen_env(r, s);
	const Scen *sc = find_scen(nm); if (!sc) harness_error(std::string("unknown scenario ") + nm);
	sc->gen(r, s);
	for (auto &m : s.mats) if ((i64) m.second.n * m.second.m > 60000 && s.get("o.blk", 1000) < 16) s.set("o.blk", r.pick({16, 50, 200}));   // keep the number of dense rounds moderate
	if (is_lib(s.scen)) { s.set("reuse", r.chance(1, 6)); s.set("tlskeep", r.chance(1, 2)); if (prop == "H28" || r.chance(1, 7)) { int k = 1 + r.below(3) / 2; if (prop == "H28" && r.chance(1, 3)) k += r.below(3); for (int t = 0; t < k; t++) { Fault f; f.kind = "history"; f.a = (i64) (r.next() >> 1); int c = r.below(6); f.b = c < 2 ? 0 : c < 5 ? 1 : 2 + (i64) r.below(13); s.faults.push_back(f); } s.set("reuse", r.chance(2, 3)); s.set("tlskeep", r.chance(3, 4)); } }
	if (prop == "N27") { s.set("reps", 8); s.set("reuse", 0); s.faults.clear(); }
	if (prop == "A16" && r.chance(1, 5)) { Fault f; f.kind = r.pick({"allocsize", "alloccap"}); f.a = (i64) std::exp(r.unit() * std::log(f.kind == "allocsize" ? 2e5 : 1e6)); s.faults.push_back(f); }
	else if (prop == "A16") { Fault f; f.kind = "alloc"; f.a = r.chance(1, 2) ? (i64) r.below(60) : (i64) std::exp(r.unit() * std::log(400.0)); f.b = r.chance(1, 2) ? 1 : r.chance(1, 2) ? 1ll << 40 : 1 + (i64) r.below(4); s.faults.push_back(f); if (r.chance(1, 10)) { f.a += 1 + r.below(100); s.faults.push_back(f); } }
}
static std::vector<std::function<void()>> owned;
extern "C" void sim_free(void *);
void own(struct spasm_csr *A) { owned.push_back([=] { spasm_csr_free(A); }); }
void own(struct spasm_triplet *T) { owned.push_back([=] { spasm_triplet_free(T); }); }
void own(struct spasm_lu *f) { owned.push_back([=] { spasm_lu_free(f); }); }
void own(struct spasm_rank_certificate *c, bool whole) { owned.push_back([=] { sim_free(c->i); sim_free(c->j); sim_free(c->x); sim_free(c->y); if (whole) sim_free(c); }); }
void own_partial(struct spasm_lu *f) { owned.push_back([=] { spasm_csr_free(f->U); if (f->Ltmp) spasm_triplet_free(f->Ltmp); }); }
void own(struct spasm_dm *d) { owned.push_back([=] { spasm_dm_free(d); }); }
void own_block(void *p) { owned.push_back([=] { sim_free(p); }); }
static void release_owned() { auto v = owned; owned.clear(); if (v.empty() || !sim_last_ok()) return; Outcome oc = sut([&] { for (auto &f : v) f(); }); must_return(oc, "releasing the results"); sim_end(); }
// Operations executed earlier in the same process (fault "history": a = seed, b = 0 same kind, other input; 1 same kind, variant of the same input; 2 + k another kind)
// another prime whose elements are represented in the same way (float, double, 64-bit integers), or the same one
static i64 same_kind_prime(Rng &r, i64 p) { if (r.chance(1, 2)) return p; for (int t = 0; t < 200; t++) { i64 q = gen_prime(r); if (q != p && q > 2 && spasm_datatype_choose(q) == spasm_datatype_choose(p)) return q; } return p; }
static void history(const Spec &s, const Fault &f) {
	Spec h; Rng r(f.a);
	if (f.b == 1) { h = s; h.seed = f.a; h.prime = same_kind_prime(r, s.prime); for (auto &m : h.mats) { std::vector<Entry> e; for (auto x : m.second.e) { if (r.chance(1, 5)) continue; if (h.prime != s.prime || r.chance(1, 2)) { i64 v = 1 + (i64) r.below(h.prime - 1); x.x = v > h.prime / 2 ? v - h.prime : v; } e.push_back(x); } m.second.e = e; } }
	else { const char *nm = f.b >= 2 ? lib_scens[(f.b - 2) % 13] : s.scen.c_str(); for (int t = 0;; t++) { gen_for(s.prop, f.a + t, h, nm); i64 c = 0; for (auto &m : h.mats) c = std::max<i64>(c, (i64) m.second.n * m.second.m); if (c < 5000 || t > 20) break; } }
	h.faults.clear(); h.replay = false; h.sw.clear(); h.set("reuse", s.get("reuse")); h.set("tlskeep", s.get("tlskeep"));
	const Scen *sc = find_scen(h.scen); sim_continue(h); history_phase = h.scen == s.scen ? 1 : 2; try { sc->run(h); harness_error("scenario did not conclude"); } catch (HistoryDone &) { sim_end(); } history_phase = 0; probe(PR_HISTORY);
}
// The same operation again and again in one process: a cache reaches its final size, a leak does not
static void repetitions(const Spec &s, const Scen *sc) {
	int K = s.get("reps"), grown = 0, run = 0; u64 c, b, last = 0, first = 0; std::string tr; size_t at = 0; u64 nt = 0;
	for (int k = 0; k < K; k++) { if (k) sim_continue(s); history_phase = 1; at = sim_block_count(); try { sc->run(s); harness_error("scenario did not conclude"); } catch (HistoryDone &) { sim_end(); } history_phase = 0; nt = RES->nontrivial; sim_live(c, b); if (k && b > last) { grown++; run++; } else run = 0; if (!k) first = b; last = b; tr += S(" %llu", (unsigned long long) b); }
	if (run >= K - 2) violation("leak", S("memory held after each repetition of %s, all results released:", s.scen.c_str()) + tr + "; blocks of the last one:" + sim_live_list(at)); (void) first; note_hash(b);
	sim_on_done = nullptr; run_done(nt);
}
void run_spec(const Spec &s) { const Scen *sc = find_scen(s.scen); if (!sc) harness_error("unknown scenario " + s.scen); snprintf(RES->scen, sizeof RES->scen, "%s", s.scen.c_str()); sim_begin(s); bool past = false; owned.clear(); sim_on_done = s.get("rel", 1) ? release_owned : nullptr; if (s.get("reps")) repetitions(s, sc);
	for (auto &f : s.faults) if (f.kind == "history") { history(s, f); past = true; }
	if (past) sim_continue(s);
	for (auto &f : s.faults) if (f.kind == "alloc") set_alloc_fault(f.a, f.b); else if (f.kind == "allocsize") set_alloc_limit(f.a, -1); else if (f.kind == "alloccap") set_alloc_limit(-1, f.a);
	sc->run(s); harness_error("scenario did not conclude"); }

// ------------------------------------------------------------------ spec serialisation
std::string Spec::dump() const {
	std::string o; char b[200];
	o += "prop " + prop + "\nscen " + scen + "\n"; snprintf(b, sizeof b, "seed %llu\nprime %lld\nthreads %d\n", (unsigned long long) seed, (long long) prime, T); o += b;
	for (auto &x : k) { snprintf(b, sizeof b, "k %s %lld\n", x.first.c_str(), (long long) x.second); o += b; }
	for (auto &f : faults) { snprintf(b, sizeof b, "fault %s %lld %lld %lld\n", f.kind.c_str(), (long long) f.a, (long long) f.b, (long long) f.c); o += b; }
	for (auto &m : mats) { snprintf(b, sizeof b, "mat %s %d %d %zu\n", m.first.c_str(), m.second.n, m.second.m, m.second.e.size()); o += b; for (auto &e : m.second.e) { snprintf(b, sizeof b, "%d %d %lld\n", e.i, e.j, (long long) e.x); o += b; } }
	if (replay) { snprintf(b, sizeof b, "schedule %zu\n", sw.size()); o += b; for (auto &w : sw) { snprintf(b, sizeof b, "%llu %d\n", (unsigned long long) w.ev, w.to); o += b; } }
	o += "end\n"; return o;
}
bool Spec::parse(const std::string &t, Spec &o) {
	o = Spec(); size_t pos = 0; auto line = [&](std::string &l) { if (pos >= t.size()) return false; size_t e = t.find('\n', pos); if (e == std::string::npos) e = t.size(); l = t.substr(pos, e - pos); pos = e + 1; return true; };
	std::string l; char w[64], nm[128]; long long a, b, c; unsigned long long u; int x, y, n;
	while (line(l)) {
		if (l == "end") return true; if (l.empty() || l[0] == '#') continue;
		if (sscanf(l.c_str(), "%63s", w) != 1) continue; std::string kw = w;
		if (kw == "prop" && sscanf(l.c_str(), "prop %127s", nm) == 1) o.prop = nm;
		else if (kw == "scen" && sscanf(l.c_str(), "scen %127s", nm) == 1) o.scen = nm;
		else if (kw == "seed" && sscanf(l.c_str(), "seed %llu", &u) == 1) o.seed = u;
		else if (kw == "prime" && sscanf(l.c_str(), "prime %lld", &a) == 1) o.prime = a;
		else if (kw == "threads" && sscanf(l.c_str(), "threads %d", &x) == 1) o.T = x;
		else if (kw == "k" && sscanf(l.c_str(), "k %127s %lld", nm, &a) == 2) o.k[nm] = a;
		else if (kw == "fault" && sscanf(l.c_str(), "fault %127s %lld %lld %lld", nm, &a, &b, &c) == 4) { Fault f; f.kind = nm; f.a = a; f.b = b; f.c = c; o.faults.push_back(f); }
		else if (kw == "mat" && sscanf(l.c_str(), "mat %127s %d %d %d", nm, &x, &y, &n) == 4) { Mat M; M.n = x; M.m = y; for (int i = 0; i < n; i++) { if (!line(l)) return false; Entry e; if (sscanf(l.c_str(), "%d %d %lld", &e.i, &e.j, &a) != 3) return false; e.x = a; M.e.push_back(e); } o.mats[nm] = M; }
		else if (kw == "schedule" && sscanf(l.c_str(), "schedule %d", &n) == 1) { o.replay = true; for (int i = 0; i < n; i++) { if (!line(l)) return false; Switch s; if (sscanf(l.c_str(), "%llu %d", &u, &s.to) != 2) return false; s.ev = u; o.sw.push_back(s); } }
	}
	return false;
}
