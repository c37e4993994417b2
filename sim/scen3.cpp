// Scenarios: the command-line programs, run as simulated processes on simulated files and streams.
#include "fact.h"
#include "iotext.h"
#include <cmath>
#include <algorithm>
#include <functional>
typedef std::map<std::pair<int, int>, u32> Sparse;
enum Tool { T_RANK, T_CERT, T_KERNEL, T_LKERNEL, T_SOLVE, T_ECH, T_RREF, T_TRANSPOSE, T_STACK, T_VSWAP, T_DM, T_DMV, T_DMI, T_BITMAP, T_N };
static const char *tool_label[T_N] = {"rank", "rank-cert", "kernel", "left-kernel", "solve", "echelonize", "echelonize-rref", "transpose", "stack", "vertical_swap", "dm", "dm-verbose", "dm-image", "bitmap"};
static bool fixed_prime(int t) { return t >= T_TRANSPOSE; }
static Sparse collect(const std::vector<Entry> &e, u64 p) { Sparse m; for (auto &x : e) { u32 &v = m[{x.i, x.j}]; v = (u32) (((u64) v + nrm(x.x, p)) % p); } for (auto it = m.begin(); it != m.end();) if (it->second == 0) it = m.erase(it); else ++it; return m; }
static Dense dense_of(int n, int m, const std::vector<Entry> &e, u64 p) { Dense D(n, m, p); for (auto &x : collect(e, p)) D.at(x.first.first, x.first.second) = x.second; return D; }

// ------------------------------------------------------------------ reference Dulmage-Mendelsohn
RefDM ref_dm(int n, int m, const Sparse &A) {
	RefDM D; D.rside.assign(n, 2); D.cside.assign(m, 2); D.rcomp.assign(n, -1); D.ccomp.assign(m, -1);
	std::vector<std::vector<int>> ra(n), ca(m); for (auto &x : A) { ra[x.first.first].push_back(x.first.second); ca[x.first.second].push_back(x.first.first); }
	std::vector<int> rm(n, -1), cm(m, -1);
	for (int i = 0; i < n; i++) { std::vector<char> seen(m, 0); std::function<bool(int)> aug = [&](int r) { for (int j : ra[r]) if (!seen[j]) { seen[j] = 1; if (cm[j] < 0 || aug(cm[j])) { cm[j] = r; rm[r] = j; return true; } } return false; }; D.srank += aug(i); }
	std::vector<int> q; for (int j = 0; j < m; j++) if (cm[j] < 0) { D.cside[j] = 1; q.push_back(j); }
	for (size_t h = 0; h < q.size(); h++) for (int i : ca[q[h]]) if (D.rside[i] != 1) { D.rside[i] = 1; int j = rm[i]; if (j >= 0 && D.cside[j] != 1) { D.cside[j] = 1; q.push_back(j); } }
	q.clear(); for (int i = 0; i < n; i++) if (rm[i] < 0) { D.rside[i] = 3; q.push_back(i); }
	for (size_t h = 0; h < q.size(); h++) for (int j : ra[q[h]]) if (D.cside[j] != 3) { D.cside[j] = 3; int i = cm[j]; if (i >= 0 && D.rside[i] != 3) { D.rside[i] = 3; q.push_back(i); } }
	// strong components of the digraph row i -> row matched to a column of row i, restricted to S (transitive closure: small matrices)
	std::vector<int> S; for (int i = 0; i < n; i++) if (D.rside[i] == 2) S.push_back(i);
	size_t k = S.size(); std::vector<std::vector<char>> R(k, std::vector<char>(k, 0)); std::vector<int> idx(n, -1); for (size_t t = 0; t < k; t++) idx[S[t]] = t;
	for (size_t t = 0; t < k; t++) { R[t][t] = 1; for (int j : ra[S[t]]) if (D.cside[j] == 2 && cm[j] >= 0 && idx[cm[j]] >= 0) R[t][idx[cm[j]]] = 1; }
	for (size_t c = 0; c < k; c++) for (size_t a = 0; a < k; a++) if (R[a][c]) for (size_t b = 0; b < k; b++) if (R[c][b]) R[a][b] = 1;
	for (size_t a = 0; a < k; a++) for (size_t b = 0; b < k; b++) if (R[a][b] && R[b][a]) { D.rcomp[S[a]] = b; D.ccomp[rm[S[a]]] = b; D.compsize[b] += (a == a); break; }
	return D;
}

// ------------------------------------------------------------------ one program run: generation
static Mat gen_rhs(Rng &r, const Mat &A, i64 prime) {
	Dense D = from_mat(A, prime); Mat B; B.m = A.m; B.n = r.below(6); for (int i = 0; i < B.n; i++) { Row v(A.m, 0); int kind = r.below(4);
		if (kind < 2) for (int t = 0; t < A.n; t++) if (r.chance(1, 2)) { u64 c = r.next() % prime; for (int j = 0; j < A.m; j++) v[j] = (u32) ((v[j] + c * D.at(t, j)) % prime); }
		if (kind == 2) for (int j = 0; j < A.m; j++) if (r.chance(1, 3)) v[j] = (u32) (r.next() % prime);
		if (kind == 1 && A.m && r.chance(1, 3)) v[r.below(A.m)] = (u32) (r.next() % prime);
		for (int j = 0; j < A.m; j++) if (v[j]) B.e.push_back({i, j, bal(v[j], prime)}); } return B;
}
static void gen_tool_common(Rng &r, Spec &s, int tool) {
	s.set("tool", tool); s.prime = fixed_prime(tool) ? 42013 : r.chance(1, 3) ? 42013 : gen_prime(r); bool big = r.chance(1, 12); s.mats["A"] = gen_matrix(r, s.prime, big ? 50 : 14, big ? 50 : 14, r.chance(1, 2)); gen_text(r, s, "t"); pol_to_spec(s, "in", gen_policy(r)); pol_to_spec(s, "out", gen_policy(r));
	s.set("usefile", r.chance(1, 2)); s.set("outfile", r.chance(1, 2)); if (r.chance(1, 3)) s.set("old", 1 + r.below(r.chance(1, 2) ? 8 : 400)); s.set("short", r.chance(1, 2)); s.set("defmod", r.chance(1, 2)); s.set("cli", r.chance(1, 4) ? 0 : (i64) (r.next() & 511)); gen_opts(r, s, false);
	Mat &A = s.mats["A"];
	if (tool == T_SOLVE) { s.mats["B"] = gen_rhs(r, A, s.prime); gen_text(r, s, "b"); pol_to_spec(s, "rhs", gen_policy(r)); }
	if (tool == T_RANK || tool == T_CERT) { s.set("notr", r.chance(1, 2)); s.set("save", tool == T_CERT); if (tool == T_RANK) s.set("cert", r.chance(1, 6)); }
	if (tool == T_DM || tool == T_DMV || tool == T_DMI) { // distinct values let the permutation be read back
		int k = 0; for (auto &e : A.e) e.x = ++k; if (r.chance(1, 3) && A.n && A.m) { std::map<std::pair<int, int>, int> c; for (auto &e : A.e) c[{e.i, e.j}] = 1; int d = std::min(A.n, A.m); for (int i = 0; i < d; i++) if (!c.count({i, i}) && r.chance(5, 6)) A.e.push_back({i, i, ++k}); }
		if (r.chance(1, 2)) { std::vector<Entry> keep; int w = 1 + r.below(5); for (auto &e : A.e) if (e.j <= e.i + (int) r.below(w) || r.chance(1, 6)) keep.push_back(e); if (!keep.empty()) A.e = keep; }
		if (tool == T_DMI) s.set("mpix", r.pick({1000000, 1000000, 100, 30, 10, 400})); else if (tool == T_DM) s.set("dmode", r.below(3)); }
	if ((tool == T_DMI || tool == T_BITMAP) && (A.n == 0 || A.m == 0)) { A.n = A.m = 1 + r.below(3); A.e.clear(); } // a picture without cells is not defined
	if (tool == T_BITMAP) { s.set("gray", r.chance(1, 2)); s.set("bw", r.below(5)); s.set("w", 1 + r.below(20)); s.set("h", 1 + r.below(20)); s.set("mpix", r.pick({1000000, 100, 30, 10, 400})); }
	if (tool == T_STACK || tool == T_BITMAP) s.k["t.style"] = s.get("t.style") & ~6; // no cancelling duplicates: emptiness is unambiguous
	if ((tool == T_DM || tool == T_DMI || tool == T_DMV)) s.k["t.style"] = s.get("t.style") & ~2;
}
static int pick_tool(Rng &r) { return r.pick<int>({T_RANK, T_RANK, T_CERT, T_CERT, T_CERT, T_KERNEL, T_KERNEL, T_LKERNEL, T_SOLVE, T_SOLVE, T_SOLVE, T_ECH, T_RREF, T_TRANSPOSE, T_STACK, T_VSWAP, T_DM, T_DM, T_DMV, T_DMI, T_BITMAP, T_BITMAP}); }

// ------------------------------------------------------------------ one program run: execution
struct ToolRun { int tool; std::string name, outname, log, out; std::vector<std::string> args; Text A, B; Outcome oc; bool out_fault = false; bool has_out = false; };
static void cli_opts(const Spec &s, std::vector<std::string> &a) {
	i64 c = s.get("cli"); auto f = [&](const char *o, i64 v) { a.push_back(S("--%s=%g", o, v / 1000.0)); };
	if ((c & 1) && !s.get("o.tall", 1)) a.push_back("--no-low-rank-mode"); if ((c & 2) && !s.get("o.dense", 1)) a.push_back("--no-dense-mode"); if (c & 4) a.push_back(S("--max-iterations=%lld", (long long) s.get("o.rounds", 3)));
	if (c & 8) f("dense-threshold", s.get("o.thr", 50)); if (c & 16) f("min-pivot-proportion", s.get("o.minpiv", 100)); if (c & 32) a.push_back(S("--dense-block-size=%lld", (long long) s.get("o.blk", 1000))); if (c & 64) f("min-rank-ratio", s.get("o.lowratio", 500)); if (c & 128) f("max-aspect-ratio", s.get("o.tallratio", 5000));
}
static ToolRun tool_run(const Spec &s, const Text *given = nullptr) {
	ToolRun t; t.tool = s.get("tool"); int k = t.tool; u64 P = s.prime; t.A = given ? *given : render(s.mats.at("A"), P, s, "t"); bool argp = k <= T_SOLVE, sh = s.get("short"), file = argp && s.get("usefile"); std::string in = file ? "A.sms" : "<stdin>"; fs_put(in, t.A.text); fs_policy(in, pol_from_spec(s, "in")); std::vector<std::string> &a = t.args;
	auto opt = [&](const char *so, const char *lo, const std::string &v) { if (sh) { a.push_back(so); if (!v.empty()) a.push_back(v); } else a.push_back(v.empty() ? std::string(lo) : std::string(lo) + "=" + v); };
	bool mod = !(s.get("defmod") && P == 42013); std::string ps = std::to_string(P); t.has_out = true; bool ofile = false;
	if (argp) { if (file) opt("-m", "--matrix", in); if (mod) opt("-p", "--modulus", ps); cli_opts(s, a); }
	switch (k) {
	case T_RANK: case T_CERT: t.name = "rank"; if (s.get("notr")) opt("-t", "--no-transpose", ""); if (s.get("cert") || k == T_CERT) opt("-c", "--certificate", ""); if (k == T_CERT) { opt("-o", "--output", "cert"); t.outname = "cert"; ofile = true; } else t.has_out = false; break;
	case T_KERNEL: case T_LKERNEL: t.name = "kernel"; if (k == T_LKERNEL) opt("-l", "--left", ""); ofile = s.get("outfile"); break;
	case T_SOLVE: { t.name = "solve"; t.B = render(s.mats.at("B"), P, s, "b"); bool bstd = file && s.get("notr"); std::string bn = bstd ? "<stdin>" : "B.sms"; fs_put(bn, t.B.text); fs_policy(bn, pol_from_spec(s, "rhs")); if (!bstd) opt("-r", "--rhs", bn); ofile = s.get("outfile"); break; }
	case T_ECH: case T_RREF: { t.name = "echelonize"; if (mod) opt("--modulus", "--modulus", ps); if (k == T_RREF) a.push_back("--rref"); i64 c = s.get("cli"); if ((c & 1) && !s.get("o.tall", 1)) a.push_back("--no-low-rank-mode"); if ((c & 2) && !s.get("o.greedy", 1)) a.push_back("--no-greedy-pivot-search");
		if (c & 4) opt("--dense-block-size", "--dense-block-size", std::to_string(s.get("o.blk", 1000))); if (c & 8) opt("--low-rank-start-weight", "--low-rank-start-weight", std::to_string(s.get("o.w", -1))); if (c & 16) opt("--sparsity-threshold", "--sparsity-threshold", S("%g", s.get("o.thr", 50) / 1000.0)); break; }
	case T_TRANSPOSE: t.name = "transpose"; break; case T_STACK: t.name = "stack"; break; case T_VSWAP: t.name = "vertical_swap"; break;
	case T_DM: t.name = "dm"; if (s.get("dmode") == 1) a.push_back("--permuted"); if (s.get("dmode") == 2) a.push_back("--tabulated"); break; case T_DMV: t.name = "dm"; a.push_back("--verbose"); break; case T_DMI: t.name = "dm"; opt("--image", "--image", S("%g", s.get("mpix", 1000000) / 1e6)); break;
	case T_BITMAP: { t.name = "bitmap"; if (s.get("gray")) a.push_back("--gray"); int bw = s.get("bw"); if (bw == 1 || bw == 3) opt("--width", "--width", std::to_string(s.get("w", 1))); if (bw == 2 || bw == 3) opt("--height", "--height", std::to_string(s.get("h", 1))); if (bw == 4) opt("--mpixels", "--mpixels", S("%g", s.get("mpix", 1000000) / 1e6)); break; }
	}
	if (k != T_CERT) { t.outname = ofile ? "out.sms" : "<stdout>"; if (ofile) opt("-o", "--output", t.outname); }
	if (ofile && s.get("old")) { std::string o = k == T_CERT ? "1 42013\n" : "3 3 M\n"; for (i64 z = s.get("old"); z > 0; z--) o += "1 1 1\n"; fs_put(t.outname, o + "0 0 0\n"); }   // left by an earlier run, to be replaced
	fs_put("<stdout>", ""); fs_policy("<stdout>", StreamPolicy()); if (t.has_out) fs_policy(t.outname, pol_from_spec(s, "out"));
	size_t l0 = sim_log.size(); t.oc = sut_main(t.name.c_str(), a); t.log = sim_log.substr(l0); if (!fs_get(t.outname, t.out)) t.out = "";
	for (auto &f : s.faults) if (f.kind.compare(0, 4, "out.") == 0) t.out_fault = true;
	return t;
}
static std::string show(const ToolRun &t) { std::string o = t.name; for (auto &x : t.args) o += " " + x; return o + " (input: " + listing(t.A.text) + ")"; }

// ------------------------------------------------------------------ output checks
static int log_rank(const std::string &log) { size_t p = log.rfind(" s rank = "); if (p == std::string::npos) return -1; return atoi(log.c_str() + p + 10); }
static bool verdict_yes(const std::string &log) { size_t p = log.find("CORRECT certificate"); return p != std::string::npos && log.find("INCORRECT certificate") == std::string::npos; }
static std::vector<std::string> words(const std::string &t) { std::vector<std::string> w; std::string c; for (char ch : t + " ") if (isspace((u8) ch)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += ch; return w; }
struct PNM { int kind = 0, w = 0, h = 0; std::vector<int> v; std::string why; };
static PNM parse_pnm(const std::string &t) { PNM I; std::vector<std::string> w = words(t); auto num = [&](size_t k, int &x) { if (k >= w.size()) return false; char *e; long v = strtol(w[k].c_str(), &e, 10); if (*e || v < 0 || v > 100000000) return false; x = v; return true; };
	if (w.empty() || w[0].size() != 2 || w[0][0] != 'P') { I.why = "bad magic"; return I; } I.kind = w[0][1] - '0'; size_t k = 1; int mx = 1; if (!num(1, I.w) || !num(2, I.h)) { I.why = "bad dimensions"; return I; } k = 3; if (I.kind > 1) { if (!num(3, mx) || mx != 255) { I.why = "bad maximum"; return I; } k = 4; }
	for (; k < w.size(); k++) { int x; if (!num(k, x) || x > mx) { I.why = "bad sample `" + w[k] + "'"; return I; } I.v.push_back(x); } if ((i64) I.v.size() != (i64) I.w * I.h * (I.kind == 3 ? 3 : 1)) I.why = S("%zu samples for %d x %d", I.v.size(), I.w, I.h); return I; }
// colours of the picture of a Dulmage-Mendelsohn decomposition: nine zones (H, S, V by rows and by columns); inside S the strong components are marked along the diagonal
template <class F> static void check_dm_colours(const PNM &I, int n, int m, const Sparse &a, F bad) {
	RefDM D = ref_dm(n, m, a); static const int zone[3][3] = {{0xFF0000, 0xCC0000, 0x990000}, {0xFFFFFF, 0xFFCC00, 0xCC9900}, {0xFFFFFF, 0xFFFFFF, 0x33CC00}}; const int in_scc = 0xFFFF66, white = 0xFFFFFF;
	int rs[4] = {}, cs[4] = {}; for (int x : D.rside) rs[x]++; for (int x : D.cside) cs[x]++; int rl[3] = {0, rs[1], rs[1] + rs[2]}, cl[3] = {0, cs[1], cs[1] + cs[2]};
	auto col = [&](int y, int x) { const int *v = &I.v[3 * (y * I.w + x)]; return v[0] << 16 | v[1] << 8 | v[2]; };
	auto zr = [&](int i) { return i >= rl[2] ? 2 : i >= rl[1] ? 1 : 0; }; auto zc = [&](int j) { return j >= cl[2] ? 2 : j >= cl[1] ? 1 : 0; };
	// a pixel (y, x) stands for the rows i with i * h / n = y and the columns j with j * w / m = x; one that straddles a boundary may take either colour
	auto first = [](int y, int h, int n) { return (int) (((i64) y * n + h - 1) / h); };
	for (int y = 0; y < I.h; y++) for (int x = 0; x < I.w; x++) {
		int i0 = first(y, I.h, n), i1 = std::max(i0, first(y + 1, I.h, n) - 1), j0 = first(x, I.w, m), j1 = std::max(j0, first(x + 1, I.w, m) - 1), c = col(y, x); bool ok = c == 0;
		for (int u = zr(i0); u <= zr(i1); u++) for (int v = zc(j0); v <= zc(j1); v++) { ok |= c == zone[u][v]; if (u == 1 && v == 1) ok |= c == in_scc || c == white; }
		if (!ok) bad("output", S("picture of the decomposition: pixel (%d, %d) has colour %06x", y, x, c)); }
	if (I.w != m || I.h != n) return;
	{ std::multiset<int> want[3], got[3], wc[3], gc[3]; std::vector<int> rd(n), cd(m), gr(n), gcol(m); for (auto &e : a) { rd[e.first.first]++; cd[e.first.second]++; } for (int y = 0; y < n; y++) for (int x = 0; x < m; x++) if (!col(y, x)) { gr[y]++; gcol[x]++; }
		for (int i = 0; i < n; i++) { want[D.rside[i] - 1].insert(rd[i]); got[zr(i)].insert(gr[i]); } for (int j = 0; j < m; j++) { wc[D.cside[j] - 1].insert(cd[j]); gc[zc(j)].insert(gcol[j]); }
		for (int z = 0; z < 3; z++) if (want[z] != got[z] || wc[z] != gc[z]) bad("output", S("picture of the decomposition: entries of zone %d do not match those of the matrix", z)); }
	// inside S, at full size: some order of the strong components explains the picture
	int k = rs[2]; std::map<int, int> left; for (auto &c : D.compsize) left[c.second]++; i64 budget = 200000;
	std::function<bool(int)> go = [&](int p) -> bool { if (p == k) return true; if (--budget < 0) return true;
		for (auto &l : left) if (l.second > 0) { int sz = l.first; bool ok = p + sz <= k; for (int i = p; ok && i < p + sz; i++) for (int j = 0; ok && j < k; j++) { int c = col(rl[1] + i, cl[1] + j); ok = j < p ? c == white : j < p + sz ? c == 0 || c == in_scc : c == 0 || c == zone[1][1]; } if (!ok) continue; l.second--; if (go(p + sz)) return true; l.second++; }
		return false; };
	if (!go(0)) bad("output", "picture of the decomposition: the strong components are not the blocks marked along the diagonal");
}
static void check_output(const ToolRun &t, const Spec &s) {
	u64 P = s.prime; std::string ctx = show(t) + " output: " + listing(t.out); int n = t.A.n, m = t.A.m, k = t.tool; Dense A = dense_of(n, m, t.A.listed, P); Parsed O; note_hash(t.out.data(), t.out.size());
	auto bad = [&](const char *cls, const std::string &w) { violation(cls, w + "; " + ctx); };
	auto parse = [&]() { O = parse_sms_strict(t.out); if (!O.ok) bad("output", "output is not a complete SMS matrix: " + O.why); };
	switch (k) {
	case T_RANK: case T_CERT: { int r = rank_of(A), g = log_rank(t.log); if (g != r) bad("output", S("rank %d reported, true rank %d", g, r)); if ((s.get("cert") || k == T_CERT) && !verdict_yes(t.log)) bad("output", "the program rejects its own certificate"); break; }
	case T_KERNEL: case T_LKERNEL: { parse(); Dense B = k == T_LKERNEL ? transpose(A) : A; Dense K = dense_of(O.n, O.m, O.e, P); int r = rank_of(B); if (K.m != B.m || K.n != B.m - r) bad("output", S("kernel is %d x %d, expected %d x %d", K.n, K.m, B.m - r, B.m));
		Dense Z = mul(K, transpose(B)); for (u32 x : Z.a) if (x) bad("output", "a row is not in the kernel"); if (rank_of(K) != K.n) bad("output", "rows are linearly dependent"); break; }
	case T_SOLVE: { parse(); Dense B = dense_of(t.B.n, t.B.m, t.B.listed, P), X = dense_of(O.n, O.m, O.e, P); if (X.n != B.n || X.m != n) bad("output", S("solution is %d x %d, expected %d x %d", X.n, X.m, B.n, n)); Space sp(A); Dense Y = mul(X, A);
		for (int i = 0; i < B.n; i++) { bool in = sp.contains(&B.a[(size_t) i * B.m]), warn = t.log.find(S("no solution for row %d\n", i)) != std::string::npos; if (in == warn) bad("output", S("row %d %s a solution, warning %s", i, in ? "has" : "does not have", warn ? "printed" : "not printed")); if (in) for (int j = 0; j < m; j++) if (Y.at(i, j) != B.at(i, j)) bad("output", S("X*A differs from B at (%d, %d)", i, j)); } break; }
	case T_ECH: case T_RREF: { parse(); Dense U = dense_of(O.n, O.m, O.e, P); Space sp(A); if (U.m != m || U.n != sp.rank()) bad("output", S("echelon form is %d x %d, expected %d x %d", U.n, U.m, sp.rank(), m)); if (rank_of(U) != U.n) bad("output", "rows are linearly dependent"); for (int i = 0; i < U.n; i++) if (!sp.contains(&U.a[(size_t) i * m])) bad("output", S("row %d is not in the row space", i));
		std::vector<int> cnt(m, 0); for (int i = 0; i < U.n; i++) for (int j = 0; j < m; j++) cnt[j] += U.at(i, j) != 0; std::vector<char> gone(U.n, 0); int left = U.n; bool again = true;
		if (k == T_RREF) { for (int i = 0; i < U.n; i++) { bool f = false; for (int j = 0; j < m; j++) if (U.at(i, j) == 1 && cnt[j] == 1) f = true; if (!f) bad("output", S("row %d of the reduced form has no pivot column", i)); } }
		else { while (again && left) { again = false; for (int i = 0; i < U.n; i++) if (!gone[i]) { bool f = false; for (int j = 0; j < m; j++) if (U.at(i, j) && cnt[j] == 1) f = true; if (f) { gone[i] = 1; left--; again = true; for (int j = 0; j < m; j++) cnt[j] -= U.at(i, j) != 0; } } } if (left) bad("output", "not an echelon form up to permutations"); } break; }
	case T_TRANSPOSE: case T_VSWAP: case T_STACK: { parse(); std::vector<Entry> w; int en = n, em = m; std::vector<int> rn(n, -1), cn(m, -1);
		if (k == T_STACK) { Sparse c = collect(t.A.listed, P); for (auto &x : c) rn[x.first.first] = cn[x.first.second] = 0; en = em = 0; for (auto &x : rn) if (x == 0) x = en++; for (auto &x : cn) if (x == 0) x = em++; }
		if (k == T_TRANSPOSE) std::swap(en, em); for (auto &x : collect(t.A.listed, P)) { int i = x.first.first, j = x.first.second; if (k == T_TRANSPOSE) w.push_back({j, i, x.second}); else if (k == T_VSWAP) w.push_back({i, m - 1 - j, x.second}); else w.push_back({rn[i], cn[j], x.second}); }
		if (O.n != en || O.m != em) bad("output", S("output is %d x %d, expected %d x %d", O.n, O.m, en, em)); if (collect(O.e, P) != collect(w, P)) bad("output", "wrong entries"); break; }
	case T_DM: { if (s.get("dmode") == 2) { if (!t.out.empty()) bad("output", "unexpected output"); break; } parse(); Sparse a = collect(t.A.listed, P), o = collect(O.e, P); if (O.n != n || O.m != m || a.size() != o.size()) bad("output", "not a permutation of the input");
		std::map<u32, std::pair<int, int>> where; for (auto &x : a) where[x.second] = x.first; std::vector<int> rp(n, -1), cp(m, -1), ru(n, -1), cu(m, -1); if (where.size() != a.size()) break;
		for (auto &x : o) { if (!where.count(x.second)) bad("output", "a value changed"); auto w = where[x.second]; int i = x.first.first, j = x.first.second; if ((rp[i] >= 0 && rp[i] != w.first) || (ru[w.first] >= 0 && ru[w.first] != i) || (cp[j] >= 0 && cp[j] != w.second) || (cu[w.second] >= 0 && cu[w.second] != j)) bad("output", "not a permutation of rows and columns"); rp[i] = w.first; ru[w.first] = i; cp[j] = w.second; cu[w.second] = j; }
		RefDM D = ref_dm(n, m, a); int rs[4] = {}, cs[4] = {}; for (int x : D.rside) rs[x]++; for (int x : D.cside) cs[x]++;
		for (int i = 0; i < n; i++) if (rp[i] >= 0) { int side = i < rs[1] ? 1 : i < rs[1] + rs[2] ? 2 : 3; if (D.rside[rp[i]] != side) bad("output", S("row %d of the output is in block %d instead of %d", i, side, D.rside[rp[i]])); }
		for (int j = 0; j < m; j++) if (cp[j] >= 0) { int side = j < cs[1] ? 1 : j < cs[1] + cs[2] ? 2 : 3; if (D.cside[cp[j]] != side) bad("output", S("column %d of the output is in block %d instead of %d", j, side, D.cside[cp[j]])); }
		std::map<int, int> pos; int lastc = -1, np = 0; for (int t2 = 0; t2 < rs[2]; t2++) { int i = rs[1] + t2, j = cs[1] + t2; if (rp[i] < 0 || cp[j] < 0) bad("output", "empty row in the square part"); int c = D.rcomp[rp[i]]; if (c != D.ccomp[cp[j]]) bad("output", "rows and columns of the strong components do not correspond"); if (c != lastc) { if (pos.count(c)) bad("output", "a strong component is split"); pos[c] = np++; lastc = c; } }
		for (auto &x : a) { int i = x.first.first, j = x.first.second; if (D.rside[i] == 2 && D.cside[j] == 2 && pos[D.rcomp[i]] > pos[D.ccomp[j]]) bad("output", "not block triangular"); } break; }
	case T_DMV: { Sparse a = collect(t.A.listed, P); RefDM D = ref_dm(n, m, a); int rs[4] = {}, cs[4] = {}; for (int x : D.rside) rs[x]++; for (int x : D.cside) cs[x]++; std::multiset<std::string> want, got; want.insert(S("structural rank = %d", D.srank));
		if (rs[1] > 0 && cs[1] > 0) want.insert(S("*) H (%d x %d)", rs[1], cs[1])); if (rs[3] > 0 && cs[3] > 0) want.insert(S("*) V (%d x %d)", rs[3], cs[3])); if (rs[2] > 0) { want.insert(S("*) S (%d x %d) :", rs[2], cs[2])); int triv = 0; for (auto &c : D.compsize) if (c.second == 1) triv++; else want.insert(S("*) SCC of size %d", c.second)); if (triv) want.insert(S("-> plus %d SCC of size 1", triv)); }
		std::string l; for (char ch : t.out) if (ch == '\n') { while (!l.empty() && l.back() == ' ') l.pop_back(); size_t z = l.find_first_not_of(' '); got.insert(z == std::string::npos ? "" : l.substr(z)); l.clear(); } else l += ch; if (!l.empty()) bad("output", "unterminated line"); if (got != want) { std::string w; for (auto &x : want) w += x + " | "; bad("output", "statistics differ, expected: " + w); } break; }
	case T_DMI: case T_BITMAP: { if (n == 0 || m == 0) break; PNM I = parse_pnm(t.out); if (!I.why.empty()) bad("output", "not a complete picture: " + I.why); int kind = k == T_DMI ? 3 : s.get("gray") ? 2 : 1; if (I.kind != kind) bad("output", "wrong kind of picture"); std::set<std::pair<int, int>> pat;
		if (k == T_DMI) { for (auto &x : collect(t.A.listed, P)) pat.insert(x.first); } else for (auto &e : t.A.listed) pat.insert({e.i, e.j});
		auto near = [&](int got, double want, int cap) { double lo = std::min<double>(std::floor(want) - 1, cap), hi = std::min<double>(std::ceil(want) + 1, cap); return got >= lo && got <= hi; }; double mp = s.get("mpix", 1000000) / 1e6, al = std::sqrt(mp * 1e6 / ((double) n * m)); int bw = k == T_BITMAP ? (int) s.get("bw") : 4; if (bw == 0) al = std::sqrt(1e6 / ((double) n * m));
		double ww = bw == 0 || bw == 4 ? al * m : bw == 2 ? (double) m * s.get("h", 1) / n : s.get("w", 1), hh = bw == 0 || bw == 4 ? al * n : bw == 1 ? (double) n * s.get("w", 1) / m : s.get("h", 1); if (!near(I.w, ww, m) || !near(I.h, hh, n)) bad("output", S("picture is %d x %d, expected about %.1f x %.1f (matrix %d x %d)", I.w, I.h, ww, hh, n, m));
		std::map<std::pair<int, int>, int> cell; int mx = 0; if (I.w && I.h) for (auto &x : pat) mx = std::max(mx, ++cell[{(int) ((i64) x.first * I.h / n), (int) ((i64) x.second * I.w / m)}]);
		if (kind == 3 && I.w && I.h) check_dm_colours(I, n, m, collect(t.A.listed, P), bad);
		if (kind == 3) { int black = 0; for (int c = 0; c < I.w * I.h; c++) black += !I.v[3 * c] && !I.v[3 * c + 1] && !I.v[3 * c + 2]; if (I.w == m && I.h == n ? black != (int) pat.size() : (black > (int) pat.size() || (I.w && I.h && !pat.empty() && !black))) bad("output", S("%d black cells for %zu entries", black, pat.size())); }
		else for (int y = 0; y < I.h; y++) for (int x = 0; x < I.w; x++) { auto it = cell.find({y, x}); int c = it == cell.end() ? 0 : it->second, v = I.v[y * I.w + x]; if (kind == 1 ? v != (c > 0) : std::abs(v - (c ? 255.0 * (1.0 - std::pow((double) c / mx, 0.1)) : 255.0)) > 1) bad("output", S("cell (%d, %d) is %d with %d entries (maximum %d)", y, x, v, c, mx)); } break; }
	}
}
static void check_cert_accepts(const ToolRun &t, const Spec &s) {
	std::string in = "A.sms"; fs_put(in, t.A.text); fs_policy(in, pol_from_spec(s, "in")); StreamPolicy rp = pol_from_spec(s, "out"); rp.eio_at = rp.eof_at = rp.nospc_at = rp.crash_at = -1; rp.err_after_calls = rp.err_once = -1; rp.eio_once = -1; fs_policy("cert", rp); std::vector<std::string> a; if (!(s.get("defmod") && s.prime == 42013)) { a.push_back("-p"); a.push_back(std::to_string(s.prime)); } a.push_back("-m"); a.push_back(in); a.push_back("-c"); a.push_back("cert");
	size_t l0 = sim_log.size(); Outcome oc = sut_main("check_cert", a); std::string log = sim_log.substr(l0); if (oc.kind != O_EXIT) must_return(oc, "check_cert"); if (!verdict_yes(log)) violation("output", "check_cert does not announce CORRECT for the certificate written by: " + show(t)); if (oc.code != 0) violation("exit-status", S("check_cert exits with status %d on a correct certificate", oc.code)); sim_end();
}
static bool alloc_mode(const Spec &s) { for (auto &f : s.faults) if (f.kind.compare(0, 5, "alloc") == 0) return true; return false; }
// ------------------------------------------------------------------ F20
SCEN(tool)
static void gen_tool(Rng &r, Spec &s) { gen_tool_common(r, s, pick_tool(r)); if (s.get("tool") == T_SOLVE && r.chance(1, 30)) { Mat &B = s.mats["B"]; B.m = r.chance(1, 2) ? B.m + 1 + (int) r.below(5) : (int) r.below(B.m + 1); std::vector<Entry> e; for (auto &x : B.e) if (x.j < B.m) e.push_back(x); B.e = e; } }
static void run_tool(const Spec &s) {
	ToolRun t = tool_run(s); probe(s.get("t.fmt") ? PR_R_MM : PR_R_SMS); note_outcome(tool_label[t.tool]); if (t.tool == T_SOLVE && t.A.m != t.B.m) { if (t.oc.failstop()) { probe(PR_R_REJECT); sim_end(); run_done(true); } if (t.oc.kind != O_EXIT) must_return(t.oc, show(t).c_str()); violation("mismatch", S("right-hand sides with %d columns were accepted for a matrix with %d columns: ", t.B.m, t.A.m) + show(t)); }
	if (t.oc.kind != O_EXIT || alloc_mode(s)) { if (!(t.oc.kind == O_EXIT && t.oc.code == 0)) must_return(t.oc, show(t).c_str()); } if (t.oc.code) violation("exit-status", S("exit status %d: ", t.oc.code) + show(t)); sim_end(); check_output(t, s); if (t.tool == T_CERT) { if (alloc_mode(s)) set_alloc_fault(-1, 0); check_cert_accepts(t, s); } run_done(!t.A.listed.empty());
}
// ------------------------------------------------------------------ O15
SCEN(toolout)
static void gen_toolout(Rng &r, Spec &s) { int k; do k = pick_tool(r); while (k == T_RANK); gen_tool_common(r, s, k); if (s.get("dmode") == 2) s.set("dmode", 0); int est = 30 + 11 * (int) s.mats["A"].e.size(); if (r.chance(1, 2)) s.k["out.buf"] = r.pick({64, 512, 4096, 65536});
	Fault f; f.kind = r.pick({"out.eio", "out.nospc", "out.eio", "out.nospc", "out.errcall", "out.once", "out.crash"}); f.c = r.chance(1, 2) ? 0 : r.below(12); f.a = f.kind == "out.errcall" || f.kind == "out.once" ? (i64) r.below(r.chance(1, 2) ? 2 : 12) : r.chance(1, 3) ? (i64) r.below(30) : (i64) r.below(est); s.faults.push_back(f); if (r.chance(1, 12)) { f.kind = "out.noopen"; f.a = 0; s.faults = {f}; } }
static bool out_fault_fired() { return RES->probe[PR_WRITE_EIO] || RES->probe[PR_WRITE_ENOSPC] || RES->probe[PR_CRASH] || RES->probe[PR_OPEN_FAIL]; }
static void run_toolout(const Spec &s) {
	ToolRun t = tool_run(s); note_outcome(tool_label[t.tool]); bool fired = out_fault_fired();
	if (fired && t.oc.failstop()) { probe(PR_R_FAILSTOP); sim_end(); note_hash(t.out.data(), t.out.size()); run_done(true); }
	if (t.oc.kind != O_EXIT) must_return(t.oc, show(t).c_str()); if (t.oc.code) violation("exit-status", S("exit status %d without any fault: ", t.oc.code) + show(t)); sim_end(); if (fired) probe(PR_R_CORRECT_UNDER_FAULT); check_output(t, s); if (t.tool == T_CERT) check_cert_accepts(t, s); run_done(fired);
}
// ------------------------------------------------------------------ W29: programs chained through a file or a pipe; any stage may be cut short
SCEN(chain)
static bool makes_sms(int t) { return t >= T_KERNEL && t <= T_VSWAP; }
static void gen_chain(Rng &r, Spec &s) {
	int stages = r.chance(1, 4) ? 3 : 2, first; do first = pick_tool(r); while (!makes_sms(first)); std::vector<int> ts{first};
	for (int i = 1; i < stages; i++) { int t; do t = pick_tool(r); while (i + 1 < stages ? !makes_sms(t) : t == T_DM || t == T_DMI); ts.push_back(t); }
	bool fix = false; for (int t : ts) fix |= fixed_prime(t); gen_tool_common(r, s, first); if (fix && s.prime != 42013) { s.prime = 42013; for (auto &m : s.mats) for (auto &e : m.second.e) e.x = bal(nrm(e.x, 42013) ? nrm(e.x, 42013) : 1, 42013); }
	for (int t : ts) if (t == T_STACK || t == T_BITMAP) s.k["t.style"] = s.get("t.style") & ~6;   // no cancelling duplicates
	s.set("stages", stages); for (int i = 1; i < stages; i++) { std::string x = std::to_string(i); s.k["tool" + x] = ts[i]; s.k["bseed" + x] = r.next() >> 2; s.k["cli" + x] = r.chance(1, 2) ? 0 : (i64) (r.next() & 511); s.k["flags" + x] = r.below(32); s.k["dim" + x] = 1 + r.below(400); pol_to_spec(s, ("in" + x).c_str(), gen_policy(r)); pol_to_spec(s, ("out" + x).c_str(), gen_policy(r)); }
	if (r.chance(3, 4)) { int at = r.below(stages - 1); Fault f; int est = 30 + 11 * (int) s.mats["A"].e.size(); bool rd = r.chance(2, 5); f.kind = rd ? r.pick({"eof", "eof", "eio"}) : r.pick({"crash", "crash", "crash", "eio", "nospc", "errcall"}); f.c = r.chance(1, 2) ? 0 : r.below(12); f.a = f.kind == "errcall" ? (i64) r.below(r.chance(1, 2) ? 2 : 12) : r.chance(1, 3) ? (i64) r.below(30) : (i64) r.below(est); f.b = r.chance(1, 3) ? 1 + r.below(12) : 0; /* that many bytes before the end */
		f.kind = (rd ? "in" + std::to_string(at + 1) : at ? "out" + std::to_string(at) : std::string("out")) + "." + f.kind; s.faults.push_back(f); }
}
static void run_chain(const Spec &s) {
	Spec c = s; ToolRun prev; Text in; int stages = s.get("stages", 2); u64 P = s.prime; std::string story;
	for (int i = 0; i < stages; i++) {
		std::string x = std::to_string(i); bool rdfault = false, eio = false;
		if (i) { c = s; c.faults.clear(); c.set("tool", s.get(("tool" + x).c_str(), T_TRANSPOSE)); c.set("cli", s.get(("cli" + x).c_str())); i64 fl = s.get(("flags" + x).c_str()), dim = s.get(("dim" + x).c_str(), 1); c.set("usefile", fl & 1); c.set("outfile", (fl >> 1) & 1); c.set("short", (fl >> 2) & 1); c.set("notr", (fl >> 3) & 1); c.set("cert", ((fl >> 4) & 1) && s.get(("tool" + x).c_str(), T_TRANSPOSE) == T_RANK); c.set("gray", fl & 1); c.set("bw", dim % 5); c.set("w", 1 + dim % 19); c.set("h", 1 + dim % 17); c.set("mpix", dim * 10);
			for (auto &f : s.faults) for (const char *d : {"in", "out"}) { std::string pf = d + x + "."; if (f.kind.compare(0, pf.size(), pf) == 0) { Fault g = f; g.kind = std::string(d) + "." + f.kind.substr(pf.size()); if (g.b && *d == 'i') g.a = std::max<i64>(0, (i64) prev.out.size() - g.b); c.faults.push_back(g); rdfault |= *d == 'i'; } }
			for (const char *d : {"in", "out"}) { std::string from = d + x + ".", to = std::string(d) + "."; for (auto &kv : s.k) if (kv.first.compare(0, from.size(), from) == 0) c.k[to + kv.first.substr(from.size())] = kv.second; }
			StreamPolicy ip = pol_from_spec(c, "in"); eio = ip.eio_at >= 0 && ip.eio_at <= (i64) prev.out.size(); std::string d = delivered(prev.out, ip); RefParse R = ref_parse(d, true, P); in.text = prev.out; in.listed = R.e; in.n = R.n; in.m = R.m; for (auto &e : in.listed) { in.n = std::max(in.n, e.i + 1); in.m = std::max(in.m, e.j + 1); }
			if (c.get("tool") == T_SOLVE) { Mat M; M.n = in.n; M.m = in.m; M.e = in.listed; Rng br(s.get(("bseed" + x).c_str())); if (R.st != REF_OK || (i64) in.n * in.m > 400000) { M.n = 1; M.e.clear(); if (R.st != REF_OK || M.m > 400000) M.m = 1; } c.mats["B"] = gen_rhs(br, M, P); }
			if (c.get("tool") == T_BITMAP && (R.st != REF_OK || !in.n || !in.m)) c.set("tool", T_TRANSPOSE);   // a picture without cells is not defined
			u64 w0 = RES->probe[PR_WRITE_EIO] + RES->probe[PR_WRITE_ENOSPC] + RES->probe[PR_CRASH], r0 = RES->probe[PR_READ_EIO]; ToolRun t = tool_run(c, &in); bool wfault = RES->probe[PR_WRITE_EIO] + RES->probe[PR_WRITE_ENOSPC] + RES->probe[PR_CRASH] > w0; eio = RES->probe[PR_READ_EIO] > r0; sim_end(); note_hash(d.data(), d.size()); note_hash(t.oc.code);
			std::string ctx = show(t) + "; after " + story + "; received: " + listing(d); if (t.oc.kind != O_EXIT && !t.oc.failstop()) must_return(t.oc, ctx.c_str());
			bool ok0 = t.oc.kind == O_EXIT && t.oc.code == 0, whole = d == prev.out && prev.oc.kind == O_EXIT && prev.oc.code == 0;
			if (!ok0) { if (whole && !rdfault && !wfault) violation("exit-status", "the next program refuses a complete matrix: " + ctx); note_outcome(wfault ? "output-failed" : "refused"); if (!wfault) probe(PR_R_REJECT); if (!wfault || i + 1 == stages) run_done(true); }
			else { if (eio) violation("partial-accepted", "a matrix whose reading failed was accepted: " + ctx); if (R.st != REF_OK) violation("partial-accepted", "an incomplete matrix was accepted (" + R.why + "): " + ctx); probe(PR_R_ACCEPT);
				ToolRun full = prev; full.out = d; if (!d.empty() && d.back() != '\n') full.out += '\n'; { Spec pc = s; pc.set("tool", prev.tool); if (parse_sms_strict(full.out).ok) check_output(full, pc); else violation("partial-accepted", "accepted a matrix that its producer had not finished: " + ctx); }
				check_output(t, c); if (i + 1 == stages) { if (t.tool == T_CERT) check_cert_accepts(t, c); note_outcome(whole ? "chained" : "accepted-complete"); } }
			prev = t; story += " | " + show(t); if (!makes_sms(t.tool)) break;
		} else {
			prev = tool_run(c); bool wf = out_fault_fired(); if (!(prev.oc.kind == O_EXIT) && !prev.oc.failstop()) must_return(prev.oc, show(prev).c_str()); if (!wf && (prev.oc.kind != O_EXIT || prev.oc.code)) violation("exit-status", S("exit status %d: ", prev.oc.code) + show(prev)); sim_end(); story = show(prev); }
	}
	run_done(!in.listed.empty());
}
// ------------------------------------------------------------------ D11
SCEN(certfile)
static void gen_certfile(Rng &r, Spec &s) {
	gen_tool_common(r, s, T_CERT); s.set("notr", 1); if (r.chance(1, 2)) s.prime = r.pick<i64>({2147483647ll, 2147483659ll, 4294967279ll, 4294967291ll}); s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 12) ? 40 : 10, r.chance(1, 12) ? 40 : 10, r.chance(1, 2)); pol_to_spec(s, "cr", gen_policy(r)); pol_to_spec(s, "mr", gen_policy(r)); int est = 90 + (int) s.mats["A"].n * 25, c = r.below(16); Fault f; auto off = [&]() -> i64 { return r.chance(1, 3) ? (i64) r.below(90) : (i64) r.below(est); };
	if (c < 1) return;
	if (c < 5) { f.kind = r.pick({"out.crash", "out.crash", "out.eio", "out.nospc", "out.errcall", "out.once"}); f.c = r.chance(1, 2) ? 0 : r.below(12); f.a = f.kind == "out.errcall" || f.kind == "out.once" ? (i64) r.below(6) : off(); s.faults.push_back(f); f = Fault(); }
	if (c >= 4 && c < 12) for (int t = 0; t < (r.chance(2, 3) ? 1 : 1 + (int) r.below(4)); t++) { f.kind = r.pick({"disk.trunc", "disk.zero", "disk.flip", "disk.flip", "disk.drop", "disk.dup", "disk.digit", "disk.digit", "disk.rank", "disk.gone"}); f.a = off(); f.b = f.kind == "disk.flip" ? 1 << r.below(8) : f.kind == "disk.rank" ? r.pick({-1, 1, -2, 1000, -1000000, 2000000000}) : 1 + (i64) r.below(20); s.faults.push_back(f); }
	if (c >= 11) { f.kind = r.pick({"cr.eio", "cr.eof", "cr.flip", "cr.noopen", "mr.eio", "mr.eof", "mr.flip", "cr.once", "mr.once"}); f.c = r.chance(1, 2) ? 0 : r.below(12); f.a = f.kind[0] == 'c' ? off() : (i64) r.below(12 * s.mats["A"].e.size() + 20); f.b = 1 << r.below(8); s.faults.push_back(f); }
}
static std::string disk_damage(std::string t, const Spec &s) {
	for (auto &f : s.faults) { size_t n = t.size(); if (f.kind.compare(0, 5, "disk.") || n == 0) continue; size_t a = (u64) f.a % n; probe(PR_TORN); std::string k = f.kind.substr(5);
		if (k == "trunc") t.resize(a); else if (k == "zero") for (size_t i = a; i < n && i < a + f.b; i++) t[i] = 0; else if (k == "flip") { t[a] ^= (char) f.b; probe(PR_BYTE_FLIP); } else if (k == "drop") { t.erase(a, f.b); probe(PR_LOST_WRITE); } else if (k == "dup") t.insert(a, t.substr(a, f.b)); else if (k == "digit") { for (size_t i = 0; i < n; i++) if (isdigit((u8) t[(a + i) % n])) { t[(a + i) % n] = '0' + (t[(a + i) % n] - '0' + 1 + f.b % 9) % 10; break; } } else if (k == "rank") { size_t e = t.find('\n'); if (e != std::string::npos) t.replace(0, e, std::to_string(atoi(t.c_str()) + f.b)); } }
	return t;
}
struct CertText { bool complete = false; i64 r = -1, prime = 0; std::string hash; std::vector<i64> v; };   // read with scanf conventions
static CertText read_cert(const std::string &t) {
	CertText c; size_t p = 0; auto num = [&](i64 &x) { while (p < t.size() && isspace((u8) t[p])) p++; size_t b = p; if (p < t.size() && (t[p] == '-' || t[p] == '+')) p++; size_t d = p; while (p < t.size() && isdigit((u8) t[p])) p++; if (p == d || p - d > 18) return false; x = strtoll(t.substr(b, p - b).c_str(), nullptr, 10); return true; };
	if (!num(c.r) || c.r < 0 || c.r > 1000000 || !num(c.prime)) return c; while (p < t.size() && isspace((u8) t[p])) p++; if (p + 64 > t.size()) return c; c.hash = t.substr(p, 64); p += 64; for (i64 k = 0; k < 4 * c.r; k++) { i64 x; if (!num(x)) return c; c.v.push_back(x); } c.complete = true; return c;
}
static void run_certfile(const Spec &s) {
	ToolRun t = tool_run(s); u64 P = s.prime; bool wfault = out_fault_fired(); Dense A = dense_of(t.A.n, t.A.m, t.A.listed, P); int r = rank_of(A); if (!wfault) { if (t.oc.kind != O_EXIT) must_return(t.oc, show(t).c_str()); if (t.oc.code) violation("exit-status", S("exit status %d: ", t.oc.code) + show(t)); } else if (!(t.oc.kind == O_EXIT) && !t.oc.failstop()) must_return(t.oc, show(t).c_str()); sim_end();
	std::string disk = disk_damage(t.out, s); bool gone = false, damaged = disk != t.out || wfault; for (auto &f : s.faults) if (f.kind == "disk.gone") gone = true; StreamPolicy cr = pol_from_spec(s, "cr"), mr = pol_from_spec(s, "mr"); fs_policy("cert", cr); fs_policy("A.sms", mr); if (gone) { sim_new_process(); std::string d; } fs_put("cert", disk); if (gone) { StreamPolicy z = cr; z.bufsize = -99; fs_policy("cert", z); } fs_put("A.sms", t.A.text);
	std::string cd = delivered(disk, cr), md = delivered(t.A.text, mr); std::vector<std::string> a{"-p", std::to_string(P), "-m", "A.sms", "-c", "cert"}; size_t l0 = sim_log.size(); u64 e0 = RES->probe[PR_READ_EIO]; Outcome oc = sut_main("check_cert", a); sim_end(); std::string log = sim_log.substr(l0); bool rfault = RES->probe[PR_READ_EIO] > e0; bool yes = verdict_yes(log), no = log.find("INCORRECT certificate") != std::string::npos; std::string ctx = "certificate file: " + listing(cd);
	if (oc.kind != O_EXIT && !oc.failstop()) must_return(oc, ("check_cert; " + ctx).c_str()); bool ok0 = oc.kind == O_EXIT && oc.code == 0; note_hash(cd.data(), cd.size()); note_hash(oc.code); CertText c = read_cert(cd), o = read_cert(t.out);
	if (yes != ok0) violation("verdict", S("check_cert %s CORRECT but exits with status %d; ", yes ? "announces" : "does not announce", oc.code) + ctx); if (yes && no) violation("verdict", "both verdicts announced; " + ctx);
	bool intact = !damaged && cd == disk && md == t.A.text && cr.bufsize != -99 && !gone && !(cr.eio_at >= 0 && cr.eio_at <= (i64) disk.size()) && !rfault;
	if (yes) { note_outcome("accepted"); probe(PR_R_ACCEPT); if (gone || cr.bufsize == -99) violation("damaged-accepted", "an unreadable certificate file was accepted"); if (!c.complete) violation("damaged-accepted", "an incomplete certificate was accepted; " + ctx); if (c.r != r && (P > 2000000000ull || c.r > std::min(t.A.n, t.A.m))) violation("damaged-accepted", S("a certificate of rank %lld was accepted, the true rank is %d; ", (long long) c.r, r) + ctx); if (c.prime != (i64) P) violation("damaged-accepted", "a certificate for another modulus was accepted; " + ctx);
		std::string hx; for (int b = 0; b < 32; b++) hx += S("%02lx", strtoul(c.hash.substr(2 * b, 2).c_str(), nullptr, 16) & 255); /* white space for a zero digit reads as the same value */ if (hx != sha256_hex(md)) violation("damaged-accepted", "a certificate with the wrong digest was accepted; " + ctx); if (o.complete && P > 2000000000ull && c.r == o.r && std::equal(c.v.begin(), c.v.begin() + 2 * c.r, o.v.begin())) // other pivots may make another correct certificate
			for (size_t k = 2 * c.r; k < c.v.size(); k++) if (nrm(c.v[k], P) != nrm(o.v[k], P)) violation("damaged-accepted", S("altered answer %zu accepted; ", k) + ctx); }
	else { note_outcome(oc.failstop() && !no ? "stopped" : "rejected"); probe(PR_R_REJECT); if (intact) violation("honest-rejected", "an intact certificate is not accepted; " + ctx); }
	run_done(true);
}

// ------------------------------------------------------------------ D11, library level: certificate written, damaged, loaded and verified in the same process
extern "C" void sim_free(void *);
SCEN(certload)
static void gen_certload(Rng &r, Spec &s) {
	s.prime = r.chance(2, 3) ? r.pick<i64>({2147483647ll, 2147483659ll, 4294967279ll, 4294967291ll}) : gen_prime(r); s.set("fsrc", 0); s.set("fseed", r.next() >> 2); s.set("f.complete", 1); s.set("hseed", r.next() >> 2); s.set("keep", r.chance(1, 3)); s.set("junk", r.pick({5, 5, 5, 2, 3, 4})); s.mats["A"] = gen_matrix(r, s.prime, 10, 10, r.chance(1, 2)); pol_to_spec(s, "out", gen_policy(r)); pol_to_spec(s, "cr", gen_policy(r)); int est = 90 + (int) s.mats["A"].n * 25; Fault f; auto off = [&]() -> i64 { return r.chance(1, 3) ? (i64) r.below(90) : (i64) r.below(est); };
	if (r.chance(1, 12)) return;
	int c = r.below(4);
	if (c < 3) for (int t = 0; t < (r.chance(2, 3) ? 1 : 1 + (int) r.below(4)); t++) { f.kind = r.pick({"disk.trunc", "disk.trunc", "disk.zero", "disk.flip", "disk.drop", "disk.dup", "disk.digit", "disk.rank"}); f.a = off(); f.b = f.kind == "disk.flip" ? 1 << r.below(8) : f.kind == "disk.rank" ? r.pick({-1, 1, -2, 1000, -1000000}) : 1 + (i64) r.below(20); s.faults.push_back(f); }
	if (c >= 2) { f.kind = r.pick({"cr.eio", "cr.eof", "cr.flip"}); f.a = off(); f.b = 1 << r.below(8); s.faults.push_back(f); }
}
static void run_certload(const Spec &s) {
	u64 P = s.prime; Dense A = from_mat(s.mats.at("A"), P); struct spasm_csr *Ac = mk_csr(s.mats.at("A"), P); int rk = rank_of(A); struct spasm_lu *F = get_fact(s, Ac, A, true, true); u8 *h = (u8 *) spasm_malloc(32); Rng hr(mix64(s.get("hseed", 1))); std::string hh; for (int i = 0; i < 32; i++) { h[i] = (u8) hr.next(); hh += S("%02x", h[i]); }
	struct spasm_rank_certificate *c = nullptr, *d = nullptr; Outcome oc = sut([&] { c = spasm_certificate_rank_create(Ac, h, F); }); must_return(oc, "spasm_certificate_rank_create");
	fs_policy("cert", pol_from_spec(s, "out")); FILE *fp = fs_open("cert", "w"); oc = sut([&] { spasm_rank_certificate_save(c, fp); }); must_return(oc, "spasm_rank_certificate_save"); fs_close(fp); std::string orig, disk; fs_get("cert", orig); disk = disk_damage(orig, s); fs_put("cert", disk);
	StreamPolicy cr = pol_from_spec(s, "cr"); std::string cd = delivered(disk, cr), ctx = "certificate file: " + listing(cd); bool eio = cr.eio_at >= 0 && cr.eio_at <= (i64) disk.size(); fs_policy("cert", cr); fp = fs_open("cert", "r"); bool l = false, v = false, fresh = !s.get("keep");
	oc = sut([&] { if (fresh) { if (s.get("hseed") & 1) { sim_free(c->i); sim_free(c->j); sim_free(c->x); sim_free(c->y); } else { sim_free(c->y); sim_free(c->x); sim_free(c->j); sim_free(c->i); } sim_free(c); } d = (struct spasm_rank_certificate *) spasm_malloc(sizeof *d); l = spasm_rank_certificate_load(fp, d); }); if (oc.failstop()) { note_outcome("stopped"); probe(PR_R_FAILSTOP); sim_end(); run_done(true); } must_return(oc, ("spasm_rank_certificate_load; " + ctx).c_str()); fs_close(fp); CertText t = read_cert(cd), o = read_cert(orig); note_hash(cd.data(), cd.size()); note_hash(l);
	if (l) { oc = sut([&] { v = spasm_certificate_rank_verify(Ac, h, d); }); must_return(oc, ("spasm_certificate_rank_verify; " + ctx).c_str()); } sim_end();
	if (v) { note_outcome("accepted"); probe(PR_R_ACCEPT); if (!t.complete) violation("damaged-accepted", "an incomplete certificate was accepted; " + ctx); if (t.r != rk && P > 2000000000ull) violation("damaged-accepted", S("a certificate of rank %lld was accepted, the true rank is %d; ", (long long) t.r, rk) + ctx); if (t.prime != (i64) P) violation("damaged-accepted", "a certificate for another modulus was accepted; " + ctx);
		std::string hx; for (int b = 0; b < 32; b++) hx += S("%02lx", strtoul(t.hash.substr(2 * b, 2).c_str(), nullptr, 16) & 255); if (hx != hh) violation("damaged-accepted", "a certificate with the wrong digest was accepted; " + ctx);
		if (o.complete && P > 2000000000ull && t.r == o.r && std::equal(t.v.begin(), t.v.begin() + 2 * t.r, o.v.begin())) for (size_t k = 2 * t.r; k < t.v.size(); k++) if (nrm(t.v[k], P) != nrm(o.v[k], P)) violation("damaged-accepted", S("altered answer %zu accepted; ", k) + ctx); }
	else { note_outcome(l ? "rejected" : "not-loaded"); probe(PR_R_REJECT); if (cd == orig && !eio) violation("honest-rejected", "an intact certificate is not accepted; " + ctx); }
	run_done(true);
}
