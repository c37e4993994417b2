// Scenarios: matrix files, streams and certificate files under I/O faults.
#include "fact.h"
#include "iotext.h"
static std::string hex(const u8 *h) { std::string o; char b[3]; for (int i = 0; i < 32; i++) { snprintf(b, 3, "%02x", h[i]); o += b; } return o; }
typedef std::map<std::pair<int, int>, u32> Sparse;
static Sparse sum_entries(const std::vector<Entry> &e, u64 p) { Sparse m; for (auto &x : e) { u32 &v = m[{x.i, x.j}]; v = (u32) (((u64) v + nrm(x.x, p)) % p); } for (auto it = m.begin(); it != m.end();) if (it->second == 0) it = m.erase(it); else ++it; return m; }
// compare a triplet with the described matrix (values: sums of listed entries; pattern: set of listed coordinates)
static void check_triplet(const struct spasm_triplet *T, int n, int m, const std::vector<Entry> &listed, u64 p, bool values, const char *cls, const std::string &ctx) {
	for (auto &e : listed) if (!values || nrm(e.x, p)) { n = std::max(n, e.i + 1); m = std::max(m, e.j + 1); }
	if (T->n != n || T->m != m) violation(cls, S("loaded matrix is %d x %d, the text describes %d x %d; %s", T->n, T->m, n, m, ctx.c_str()));
	if (T->nz < 0 || T->nz > T->nzmax) violation("structure", S("%lld entries with room for %lld", (long long) T->nz, (long long) T->nzmax));
	if (T->nz && (!heap_ptr_live(T->i, T->nz * 4) || !heap_ptr_live(T->j, T->nz * 4) || (values && (!T->x || !heap_ptr_live(T->x, T->nz * 4))))) violation("structure", "entries not in live memory");
	if (!values && T->x) violation(cls, "values present although not requested");
	std::vector<Entry> got; for (i64 k = 0; k < T->nz; k++) { if (T->i[k] < 0 || T->i[k] >= n || T->j[k] < 0 || T->j[k] >= m) violation(cls, S("entry (%d, %d) out of range; %s", T->i[k], T->j[k], ctx.c_str())); if (values && nrm(T->x[k], p) == 0) violation(cls, "explicit zero kept"); got.push_back({T->i[k], T->j[k], values ? T->x[k] : 1}); }
	if (values) { if (sum_entries(got, p) != sum_entries(listed, p)) violation(cls, S("loaded entries differ from the text; %s", ctx.c_str())); }
	else { std::set<std::pair<int, int>> a, b; for (auto &e : got) a.insert({e.i, e.j}); for (auto &e : listed) b.insert({e.i, e.j}); if (a != b) violation(cls, S("loaded pattern differs from the text; %s", ctx.c_str())); }
}
static void check_csr(const struct spasm_csr *A, int n, int m, const std::vector<Entry> &listed, u64 p, bool values, const char *cls, const std::string &ctx) {
	for (auto &e : listed) if (!values || nrm(e.x, p)) { n = std::max(n, e.i + 1); m = std::max(m, e.j + 1); }
	if (A->n != n || A->m != m) violation(cls, S("matrix is %d x %d, expected %d x %d; %s", A->n, A->m, n, m, ctx.c_str()));
	if (values) { Dense D = csr_dense(A, p, "compressed matrix", true), E(n, m, p); for (auto &e : sum_entries(listed, p)) E.at(e.first.first, e.first.second) = e.second; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (D.at(i, j) != E.at(i, j)) violation(cls, S("entry (%d, %d) is %u instead of %u; %s", i, j, D.at(i, j), E.at(i, j), ctx.c_str()));
		i64 h = p / 2; for (i64 k = 0; k < A->p[n]; k++) if ((i64) A->x[k] > h || (i64) A->x[k] < h - (i64) p + 1) violation(cls, S("value %d is not reduced modulo %llu", A->x[k], (unsigned long long) p)); }
	else { if (A->x) violation(cls, "values present although not requested"); std::set<std::pair<int, int>> a, b; for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) if (!a.insert({i, A->j[k]}).second) violation("structure", S("duplicate entry (%d, %d)", i, A->j[k])); for (auto &e : listed) b.insert({e.i, e.j}); if (a != b) violation(cls, S("pattern differs from the text; %s", ctx.c_str())); }
}
// ------------------------------------------------------------------ I12
SCEN(load)
static Mat gen_huge(Rng &r, u64 p) {   // coordinates up to the limits of the index type: loaded, never compressed
	Mat M; auto dim = [&]() { return (int) (r.chance(1, 3) ? INT32_MAX - r.below(3) : r.chance(1, 2) ? 1 + r.below(INT32_MAX) : 1 + r.below(1 << (1 + r.below(30)))); }; M.n = dim(); M.m = dim(); std::set<std::pair<int, int>> seen;
	for (int t = 1 + (int) r.below(8); t > 0; t--) { int i = r.chance(1, 3) ? M.n - 1 : r.below(M.n), j = r.chance(1, 3) ? M.m - 1 : r.below(M.m); i64 x = 1 + r.below(p - 1); if (x > (i64) p / 2) x -= p; if (seen.insert({i, j}).second) M.e.push_back({i, j, x}); }
	std::sort(M.e.begin(), M.e.end(), [](const Entry &a, const Entry &b) { return a.i != b.i ? a.i < b.i : a.j < b.j; }); return M;
}
static void gen_load(Rng &r, Spec &s) { s.prime = gen_prime(r); s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 10) ? 60 : 14, r.chance(1, 10) ? 60 : 14); if (r.chance(1, 25)) s.mats["A"].e.clear(); if (r.chance(1, 700)) s.mats["A"] = gen_wide(r, s.prime); if (r.chance(1, 150)) s.mats["A"] = gen_huge(r, s.prime); gen_text(r, s, "t"); if (r.chance(1, 4)) s.set("t.style", s.get("t.style") | 512); pol_to_spec(s, "in", gen_policy(r)); s.set("pattern", r.chance(1, 8)); s.set("wanthash", r.chance(3, 4)); if (s.prop == "I12" && r.chance(1, 12000)) { s.set("giga", 1 + r.below(1000)); s.set("t.fmt", 1); s.set("wanthash", 1); s.set("cap", 40000000000ll); s.set("in.mode", 0); s.set("in.buf", 65536); } }
static void run_load(const Spec &s) {
	Text T = render(s.mats.at("A"), s.prime, s, "t"); bool pat = s.get("pattern"), wh = s.get("wanthash", 1); fs_put("in", T.text); fs_policy("in", pol_from_spec(s, "in")); probe(s.get("t.fmt") ? PR_R_MM : PR_R_SMS);
	i64 giga = s.get("giga"); std::string block; size_t at = 0; if (giga && (at = T.text.find('\n')) != std::string::npos) { at++; block = "%" + std::string(900 + giga % 97, 'c') + "\n"; giga = (1ll << 29) / (i64) block.size() + giga % 5 - 1; fs_repeat("in", at, block, giga); } else giga = 0;   // more bytes than fit a 32-bit count of bits
	FILE *f = fs_open("in", "r"); struct spasm_triplet *t = nullptr; u8 *h = wh ? (u8 *) spasm_malloc(32) : nullptr; struct spasm_csr *A = nullptr; std::string ctx = "text: " + listing(T.text);
	Outcome oc = sut([&] { t = spasm_triplet_load(f, pat ? -1 : s.prime, h); }); if (!oc.ok() && oc.failstop()) { fs_close(f); must_return(oc, ("loading a well-formed matrix (" + ctx + ")").c_str()); } must_return(oc, "spasm_triplet_load"); fs_close(f);
	check_triplet(t, T.n, T.m, T.listed, s.prime, !pat, "load", ctx); std::string want = wh ? sha256_hex(T.text, at, block, giga) : ""; if (wh && hex(h) != want) violation("digest", S("digest %s, expected %s; %s%s", hex(h).c_str(), want.c_str(), ctx.c_str(), giga ? S(" (with %lld comment lines of %zu bytes)", (long long) giga, block.size()).c_str() : ""));
	if ((i64) T.n * T.m > 30000000) { sim_end(); own(t); note_hash(T.text.data(), T.text.size()); run_done(!T.listed.empty()); }
	oc = sut([&] { A = spasm_compress(t); }); must_return(oc, "spasm_compress"); sim_end(); check_csr(A, T.n, T.m, T.listed, s.prime, !pat, "load", ctx); if (T.listed.size() > s.mats.at("A").e.size()) probe(PR_R_DUP);
	own(t); own(A); note_hash(T.text.data(), T.text.size()); run_done(!T.listed.empty());
}
// ------------------------------------------------------------------ I13
SCEN(badload)
static void gen_badload(Rng &r, Spec &s) { s.prime = gen_prime(r); s.mats["A"] = gen_matrix(r, s.prime, 8, 8); if (r.chance(1, 15)) s.mats["A"].e.clear(); gen_text(r, s, "t", r.chance(1, 2)); if (r.chance(1, 6)) s.set("t.style", s.get("t.style") | 512); pol_to_spec(s, "in", gen_policy(r)); s.set("pattern", r.chance(1, 8)); s.set("wanthash", r.chance(1, 2));
	int c = r.below(10); if (c < 6) gen_damage(r, s, "t", r.chance(2, 3) ? 1 : 1 + r.below(4)); if (c >= 5) { Fault f; f.kind = r.pick({"in.eof", "in.eio", "in.eio", "in.flip", "in.once"}); f.c = r.chance(1, 2) ? 0 : r.below(12); size_t L = render(s.mats["A"], s.prime, s, "t").text.size(); f.a = r.below(L + 2); if (r.chance(1, 3)) f.a = std::max<i64>(0, (i64) L - (i64) r.below(9)); f.b = 1 << r.below(8); s.faults.push_back(f); if (r.chance(1, 4)) { f.kind = "in.flip"; f.a = r.below(L + 1); f.b = 1 + r.below(255); s.faults.push_back(f); } } }
static void run_badload(const Spec &s) {
	Text T0 = render(s.mats.at("A"), s.prime, s, "t"); std::string text = damage(T0.text, s, "t"); bool pat = s.get("pattern"); StreamPolicy pol = pol_from_spec(s, "in"); fs_put("in", text); fs_policy("in", pol); probe(s.get("t.fmt") ? PR_R_MM : PR_R_SMS);
	bool eio = pol.eio_at >= 0 && pol.eio_at <= (i64) text.size() && !(pol.eof_at >= 0 && pol.eof_at < pol.eio_at); std::string bytes = delivered(text, pol); RefParse R = ref_parse(bytes, !pat, s.prime);
	FILE *f = fs_open("in", "r"); struct spasm_triplet *t = nullptr; u8 *h = s.get("wanthash") ? (u8 *) spasm_malloc(32) : nullptr; std::string ctx = "delivered bytes: " + listing(bytes);
	Outcome oc = sut([&] { t = spasm_triplet_load(f, pat ? -1 : s.prime, h); }); sim_end(); note_hash(oc.kind); note_hash(bytes.data(), bytes.size()); if (oc.kind != O_MEM && oc.kind != O_HANG) fs_close(f);
	{ size_t a = sim_log.find(" matrix modulo "), b, c; if (a != std::string::npos && (b = sim_log.find(" with ", a)) != std::string::npos && (c = sim_log.find(" non-zero", b)) != std::string::npos && sim_log.find('\n', a) > c) { std::string w = sim_log.substr(b + 6, c - b - 6); bool digit = false; for (char ch : w) if (isdigit((u8) ch)) digit = true; if (!digit) violation("mem:uninitialised", "the number of entries announced in the log is stale memory: " + listing(w) + "; " + ctx); } }
	if (oc.failstop()) { probe(PR_R_FAILSTOP); note_outcome("refused"); if (sim_log.empty()) violation("silent", "refused without an error report"); run_done(true); }
	if (!oc.ok()) must_return(oc, ("loading damaged text (" + ctx + ")").c_str());
	if (eio) violation("misread", S("a stream that fails with an I/O error at byte %lld was accepted; %s", (long long) pol.eio_at, ctx.c_str()));
	if (R.st == REF_SKIP) { note_outcome("accepted-not-compared"); run_done(false); }
	if (R.st == REF_FAIL) violation("misread", S("incomplete or malformed text accepted (%s); %s", R.why.c_str(), ctx.c_str()));
	note_outcome("accepted"); probe(PR_R_ACCEPT); check_triplet(t, R.n, R.m, R.e, s.prime, !pat, "misread", ctx); if (h && hex(h) != sha256_hex(bytes)) violation("digest", "wrong digest; " + ctx);
	if (t->n <= 3000 && t->m <= 3000) { struct spasm_csr *A = nullptr; oc = sut([&] { A = spasm_compress(t); }); must_return(oc, "spasm_compress"); sim_end(); if ((i64) t->n * t->m < 1000000) check_csr(A, R.n, R.m, R.e, s.prime, !pat, "misread", ctx); }
	run_done(true);
}
// ------------------------------------------------------------------ I14
SCEN(roundtrip)
static void gen_roundtrip(Rng &r, Spec &s) { s.prime = gen_prime(r); s.mats["A"] = gen_matrix(r, s.prime, r.chance(1, 10) ? 60 : 14, r.chance(1, 10) ? 60 : 14); if (r.chance(1, 12)) s.mats["A"].e.clear(); if (r.chance(1, 700)) s.mats["A"] = gen_wide(r, s.prime); s.set("kind", r.below(5)); pol_to_spec(s, "w", gen_policy(r)); pol_to_spec(s, "r", gen_policy(r)); s.set("patload", r.chance(1, 4)); s.set("slack", r.below(4)); s.set("grow", r.chance(1, 2) ? 0 : 1 + r.below(4)); s.set("gseed", r.next() >> 2); s.set("dups", r.chance(1, 4) ? 1 + r.below(4) : 0); }
static void run_roundtrip(const Spec &s) {
	Mat M = s.mats.at("A"); int kind = s.get("kind"); bool pat = kind == 1 || kind == 3; fs_policy("f", pol_from_spec(s, "w"));
	if (int d = kind == 2 ? (int) s.get("dups") : 0) {   // a triplet may list a coordinate several times: it stands for the sum
		Rng g(s.get("gseed", 1) ^ 0xd0b5); std::vector<Entry> o; for (auto &e : M.e) { o.push_back(e); while (g.chance(d, 10)) { Entry x = e; if (g.chance(1, 2)) { x.x = g.pick({(i64) 1, (i64) -1, (i64) e.x}); if (g.chance(1, 2)) o.back().x = x.x; } if (g.chance(1, 4)) { x = o[g.below(o.size())]; } o.push_back(x); } } M.e = o;
	}
	 FILE *f = fs_open("f", "w"); struct spasm_csr *A = nullptr; struct spasm_triplet *T = nullptr;
	if (kind == 4) { std::string b; A = mk_csr(M, s.prime); b = csr_bytes(A); struct spasm_csr *At = nullptr; Outcome o2 = sut([&] { At = spasm_transpose(A, true); A = spasm_transpose(At, true); }); must_return(o2, "spasm_transpose"); own(At); own(A); }
	else if (kind < 2) A = mk_csr(M, s.prime, !pat);
	else if (int grow = (int) s.get("grow")) {   // entry by entry, from a small triplet; values not reduced, zero values among them
		Rng g(s.get("gseed", 1)); std::vector<Entry> in; for (auto &e : M.e) { if (!pat && g.chance(1, 6)) in.push_back({(int) g.below(M.n), (int) g.below(M.m), g.range(-1, 1) * (i64) s.prime}); i64 x = e.x; if (!pat && g.chance(1, 2)) x += g.range(-3, 3) * (i64) s.prime; in.push_back({e.i, e.j, x}); }
		int cnt = in.size(); bool tr = g.chance(1, 4), dims = g.chance(1, 4); Entry *ie = (Entry *) spasm_malloc(sizeof(Entry) * (cnt + 1)); std::copy(in.begin(), in.end(), ie); int n0 = M.n, m0 = M.m; if (dims) { n0 = m0 = 0; for (auto &e : M.e) { n0 = std::max(n0, e.i + 1); m0 = std::max(m0, e.j + 1); } if (n0 != M.n || m0 != M.m) { n0 = M.n; m0 = M.m; } else n0 = m0 = 0; }   // the dimensions grow with the entries
		Outcome o2 = sut([&] { T = spasm_triplet_alloc(tr ? m0 : n0, tr ? n0 : m0, grow - 1, pat ? -1 : s.prime, !pat); for (int t = 0; t < cnt; t++) spasm_add_entry(T, tr ? ie[t].j : ie[t].i, tr ? ie[t].i : ie[t].j, ie[t].x); if (tr) spasm_triplet_transpose(T); }); must_return(o2, "building a triplet matrix"); own(T); }
	else { T = spasm_triplet_alloc(M.n, M.m, M.e.size() + s.get("slack"), pat ? -1 : s.prime, !pat); for (auto &e : M.e) { T->i[T->nz] = e.i; T->j[T->nz] = e.j; if (!pat) T->x[T->nz] = (spasm_ZZp) e.x; T->nz++; } }
	std::string before = A ? csr_bytes(A) : ""; Outcome oc = sut([&] { if (A) spasm_csr_save(A, f); else spasm_triplet_save(T, f); }); must_return(oc, "saving"); fs_close(f); if (A && csr_bytes(A) != before) violation("input-modified", "the saved matrix was modified");
	std::string text; fs_get("f", text); Parsed P = parse_sms_strict(text); if (!P.ok) violation("format", "saved file is not valid SMS: " + P.why + "; " + listing(text));
	std::vector<Entry> want = M.e; if (pat) for (auto &e : want) e.x = 1; if (P.n != M.n || P.m != M.m || sum_entries(P.e, s.prime) != sum_entries(want, s.prime) || P.e.size() != want.size()) violation("roundtrip", "saved file does not describe the matrix: " + listing(text));
	bool pl = s.get("patload"); fs_policy("f", pol_from_spec(s, "r")); f = fs_open("f", "r"); struct spasm_triplet *t = nullptr; struct spasm_csr *B = nullptr;
	oc = sut([&] { t = spasm_triplet_load(f, pl ? -1 : s.prime, nullptr); B = spasm_compress(t); }); must_return(oc, "loading a saved matrix"); own(t); own(B); fs_close(f); sim_end();
	check_csr(B, M.n, M.m, want, s.prime, !pl, "roundtrip", "saved: " + listing(text)); note_hash(text.data(), text.size()); run_done(!M.e.empty());
}
