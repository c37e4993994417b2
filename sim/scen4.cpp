// Cross-cutting scenarios: several callers sharing inputs (T18).  A16, M17 and L19 reuse the other scenarios.
#include "fact.h"
#include <algorithm>
// ------------------------------------------------------------------ T18
enum Op { OP_SOLVE, OP_GESV, OP_KERNEL, OP_RREF, OP_KRREF, OP_CERT, OP_CVERIFY, OP_FVERIFY, OP_ECH, OP_ECHL, OP_TRANSPOSE, OP_SAVE, OP_SCHUR, OP_LOAD, OP_ECHP, OP_LOADP, OP_DM, OP_CERTIO, OP_HASH, OP_BUILD, OP_SCHURR, OP_SCHURD, OP_OWN, OP_N };
SCEN(multi)
static void gen_multi(Rng &r, Spec &s) {
	s.prime = gen_prime(r); s.T = r.chance(1, 4) ? 1 : (int) r.range(2, 3); bool big = r.chance(1, 10); s.mats["A"] = gen_matrix(r, s.prime, big ? 30 : 12, big ? 30 : 12, r.chance(1, 2)); gen_opts(r, s, false); s.set("f.complete", r.chance(1, 2)); s.set("fsrc", r.chance(2, 3) ? 0 : 1); s.set("fseed", r.next() >> 2); s.set("dseed", r.next() >> 2); s.set("hseed", r.next() >> 2);
	int nc = r.chance(3, 4) ? 2 : 3; s.set("ncall", nc); int same = r.chance(1, 3) ? (r.chance(1, 4) ? (int) OP_OWN : (int) r.below(OP_N)) : -1; if (r.chance(3, 4)) s.set("ownop", 1 + r.below(5)); if (r.chance(1, 40)) { s.set("focus", 1); same = OP_SCHURR; s.T = 1; s.prime = r.pick<i64>({42013, 189812507, 4294967291ll}); s.mats["A"] = gen_matrix(r, s.prime, 12, 6); if (s.get("randmode")) s.set("randmode", 0); }   // many short invocations: the state they share is most of what they do
		 for (int c = 0; c < nc; c++) { s.k[S("op%d", c)] = same >= 0 ? same : (i64) r.below(OP_N); pol_to_spec(s, S("w%d", c).c_str(), gen_policy(r)); }
}
static std::string hexdig(const u8 *h) { std::string o; for (int i = 0; i < 32; i++) o += S("%02x", h[i]); return o; }
struct Caller { int op = 0; struct spasm_csr *csr = nullptr, *B = nullptr; struct spasm_lu *lu = nullptr; int *q = nullptr, *p = nullptr; spasm_ZZp *b = nullptr, *x = nullptr; bool *ok = nullptr; bool res = false; struct spasm_rank_certificate *c = nullptr; FILE *f = nullptr; struct spasm_triplet *T = nullptr; Dense Bd; std::string name; struct echelonize_opts o; Mat M2; i64 P2 = 0; struct spasm_csr *A2 = nullptr; struct spasm_dm *dm = nullptr; u8 *md = nullptr; std::string text; std::vector<i64> draws, draws2; void *D = nullptr; int rows = 0; struct spasm_triplet *T2 = nullptr; struct spasm_csr *csr2 = nullptr, *csr3 = nullptr; int *pp = nullptr; FILE *f2 = nullptr; struct spasm_rank_certificate *c2 = nullptr; struct spasm_csr *U2 = nullptr; struct spasm_lu *g = nullptr; std::string bg; int *qi2 = nullptr; int inv = 1, w = 0; };
// the first rows of the shared factorization: a partial elimination with something left to eliminate
static void partial_u(Caller &k, const struct spasm_lu *f, int m, Rng &r, int fixed = -1) {
	int u = f->U->n; if (fixed >= 0) u = fixed; else if (r.chance(3, 4)) u = r.chance(1, 2) ? 0 : (int) r.below(u + 1); i64 nz = f->U->p[u]; k.U2 = spasm_csr_alloc(u, m, nz, spasm_get_prime(f->U), true); memcpy(k.U2->p, f->U->p, (u + 1) * sizeof *f->U->p); memcpy(k.U2->j, f->U->j, nz * sizeof *f->U->j); memcpy(k.U2->x, f->U->x, nz * sizeof *f->U->x);
	k.qi2 = (int *) spasm_malloc((i64) m * 4); for (int j = 0; j < m; j++) k.qi2[j] = f->qinv[j] < u ? f->qinv[j] : -1;
}
static void run_multi(const Spec &s) {
	const Mat &M = s.mats.at("A"); u64 P = s.prime; Dense A = from_mat(M, P); struct spasm_csr *Ac = mk_csr(M, P); Space sp(A); int rk = sp.rank(), nc = s.get("ncall", 2); Rng r(s.get("dseed", 1)); bool complete = s.get("f.complete");
	struct spasm_lu *f = get_fact(s, Ac, A, true, complete); u8 *hash = (u8 *) spasm_malloc(32); for (int i = 0; i < 32; i++) hash[i] = (u8) r.next(); struct spasm_csr *R = nullptr; int *Rq = nullptr; struct spasm_rank_certificate *proof = nullptr; bool need_r = false, need_c = false;
	std::vector<Caller> C(nc); for (int c = 0; c < nc; c++) { C[c].op = s.get(S("op%d", c).c_str()); need_r |= C[c].op == OP_KRREF; need_c |= C[c].op == OP_CVERIFY || C[c].op == OP_CERTIO; C[c].o = mk_opts(s); }
	if (need_r) { Rq = (int *) spasm_malloc((i64) M.m * 4); Outcome oc = sut([&] { R = spasm_rref(f, Rq); }); must_return(oc, "spasm_rref"); }
	if (need_c) { Outcome oc = sut([&] { proof = spasm_certificate_rank_create(Ac, hash, f); }); must_return(oc, "spasm_certificate_rank_create"); }
	std::vector<std::function<void()>> fs; std::string ctx; std::vector<i64> ecnt;
	for (int c = 0; c < nc; c++) { Caller &k = C[c]; k.name = S("s%d", c); static const char *nm[OP_N] = {"solve", "gesv", "kernel", "rref", "kernel_from_rref", "certificate_create", "certificate_verify", "factorization_verify", "echelonize", "echelonize+L", "transpose", "save", "schur", "load", "echelonize (own matrix)", "load (own field)", "dulmage_mendelsohn", "certificate save, load, verify", "digest, generator", "build", "schur_dense_randomized", "schur_dense", "own factorization"}; ctx += (c ? " || " : "") + std::string(nm[k.op]);
		if (k.op == OP_SOLVE || k.op == OP_GESV) { int nb = k.op == OP_SOLVE ? 1 : (int) r.below(5); Mat B; B.n = nb; B.m = M.m; for (int i = 0; i < nb; i++) { Row v(M.m, 0); if (r.chance(2, 3)) { for (int t = 0; t < M.n; t++) if (u64 z = r.next() % P) for (int j = 0; j < M.m; j++) v[j] = (u32) ((v[j] + z * A.at(t, j)) % P); } else for (auto &x : v) x = (u32) (r.next() % P); for (int j = 0; j < M.m; j++) if (v[j]) B.e.push_back({i, j, bal(v[j], P)}); }
			k.Bd = from_mat(B, P); if (k.op == OP_GESV) { k.B = mk_csr(B, P); k.ok = (bool *) spasm_malloc(nb); } else { k.b = (spasm_ZZp *) spasm_malloc((i64) M.m * 4); k.x = (spasm_ZZp *) spasm_malloc((i64) M.n * 4); for (int j = 0; j < M.m; j++) k.b[j] = bal(k.Bd.at(0, j), P); } }
		if (k.op == OP_RREF) k.q = (int *) spasm_malloc((i64) M.m * 4); if (k.op == OP_SAVE) { fs_policy(k.name, pol_from_spec(s, S("w%d", c).c_str())); k.f = fs_open(k.name, "w"); }
		if (k.op == OP_LOAD) { std::string t = S("%d %d M\n", M.n, M.m); for (auto &e : M.e) t += S("%d %d %lld\n", e.i + 1, e.j + 1, (long long) e.x); t += "0 0 0\n"; fs_put(k.name, t); fs_policy(k.name, pol_from_spec(s, S("w%d", c).c_str())); k.f = fs_open(k.name, "r"); }
		Caller *q = &k; u64 fseed = r.next(); switch (k.op) {
		case OP_SOLVE: fs.push_back([=] { q->res = spasm_solve(f, q->b, q->x); }); break; case OP_GESV: fs.push_back([=] { q->csr = spasm_gesv(f, q->B, q->ok); }); break; case OP_KERNEL: fs.push_back([=] { q->csr = spasm_kernel(f); }); break;
		case OP_RREF: fs.push_back([=] { q->csr = spasm_rref(f, q->q); }); break; case OP_KRREF: fs.push_back([=] { q->csr = spasm_kernel_from_rref(R, Rq); }); break; case OP_CERT: fs.push_back([=] { q->c = spasm_certificate_rank_create(Ac, hash, f); }); break;
		case OP_CVERIFY: fs.push_back([=] { q->res = spasm_certificate_rank_verify(Ac, hash, proof); }); break; case OP_FVERIFY: fs.push_back([=] { q->res = spasm_factorization_verify(Ac, f, fseed); }); break; case OP_ECH: fs.push_back([=] { q->lu = spasm_echelonize(Ac, &q->o); }); break;
		case OP_ECHL: k.o.L = 1; k.o.complete = r.chance(1, 2); fs.push_back([=] { q->lu = spasm_echelonize(Ac, &q->o); }); break; case OP_TRANSPOSE: fs.push_back([=] { q->csr = spasm_transpose(Ac, true); }); break; case OP_SAVE: fs.push_back([=] { spasm_csr_save(Ac, q->f); }); break;
		case OP_SCHUR: partial_u(k, f, M.m, r); fs.push_back([=] { struct spasm_lu g = *f; g.U = q->U2; g.qinv = q->qi2; g.L = nullptr; g.Ltmp = nullptr; int *p = q->p = (int *) spasm_malloc((i64) Ac->n * sizeof(int)); int n = 0; for (int i = 0; i < Ac->n; i++) p[n++] = i; q->q = (int *) spasm_malloc((i64) Ac->n * sizeof(int)); q->csr = spasm_schur(Ac, p, n, &g, 0.1, nullptr, nullptr, q->q); }); break;
		case OP_ECHP: k.P2 = gen_prime(r); k.M2 = gen_matrix(r, k.P2, 10, 10); k.A2 = mk_csr(k.M2, k.P2); k.o.L = r.chance(1, 2); k.o.complete = r.chance(1, 2); fs.push_back([=] { q->lu = spasm_echelonize(q->A2, &q->o); }); break;
		case OP_LOADP: { k.P2 = gen_prime(r); k.M2 = gen_matrix(r, k.P2, 10, 10); std::string t = S("%d %d M\n", k.M2.n, k.M2.m); for (auto &e : k.M2.e) t += S("%d %d %lld\n", e.i + 1, e.j + 1, (long long) e.x); t += "0 0 0\n"; k.text = t; fs_put(k.name, t); fs_policy(k.name, pol_from_spec(s, S("w%d", c).c_str())); k.f = fs_open(k.name, "r"); k.md = (u8 *) spasm_malloc(32); fs.push_back([=] { q->T = spasm_triplet_load(q->f, q->P2, q->md); q->csr = spasm_compress(q->T); }); break; }
		case OP_DM: fs.push_back([=] { q->dm = spasm_dulmage_mendelsohn(Ac); }); break;
		case OP_CERTIO: fs_policy(k.name, pol_from_spec(s, S("w%d", c).c_str())); k.f = fs_open(k.name, "w"); k.c2 = (struct spasm_rank_certificate *) spasm_malloc(sizeof *k.c2); fs.push_back([=] { spasm_rank_certificate_save(proof, q->f); }); break;
		case OP_HASH: { k.P2 = gen_prime(r); int len = r.below(300); for (int t = 0; t < len; t++) k.text += (char) r.next(); char *buf = (char *) spasm_malloc(len + 1); memcpy(buf, k.text.data(), len); int cut = r.below(len + 1), cnt = 1 + r.below(40); u32 seq = (u32) r.below(5); k.md = (u8 *) spasm_malloc(32); k.rows = cnt;
			k.pp = (int *) spasm_malloc((i64) cnt * 4 * 3); fs.push_back([=] { spasm_sha256_ctx h; spasm_SHA256_init(&h); spasm_SHA256_update(&h, buf, cut); spasm_prng_ctx g; spasm_prng_seed(hash, q->P2, seq, &g); for (int t = 0; t < cnt; t++) q->pp[t] = spasm_prng_ZZp(&g); spasm_SHA256_update(&h, buf + cut, len - cut); spasm_SHA256_final(q->md, &h); spasm_prng_seed(hash, q->P2, seq, &g); for (int t = 0; t < cnt; t++) q->pp[cnt + t] = spasm_prng_ZZp(&g); });
			break; }
		case OP_BUILD: { k.P2 = gen_prime(r); k.M2 = gen_matrix(r, k.P2, 10, 10); int cnt = k.M2.e.size(); int *ei = (int *) spasm_malloc((i64) cnt * 8), *ej = ei + cnt; i64 *ex = (i64 *) spasm_malloc((i64) cnt * 8); for (int t = 0; t < cnt; t++) { ei[t] = k.M2.e[t].i; ej[t] = k.M2.e[t].j; ex[t] = k.M2.e[t].x; } k.pp = (int *) spasm_malloc((i64) k.M2.n * 4); k.q = (int *) spasm_malloc((i64) k.M2.m * 4);
			for (int t = 0; t < k.M2.n; t++) k.pp[t] = t; for (int t = k.M2.n - 1; t > 0; t--) std::swap(k.pp[t], k.pp[r.below(t + 1)]); for (int t = 0; t < k.M2.m; t++) k.q[t] = t; for (int t = k.M2.m - 1; t > 0; t--) std::swap(k.q[t], k.q[r.below(t + 1)]);
			i64 cap = r.below(3); int grow = k.inv = r.below(5), gm = k.rows = r.below(3); fs.push_back([=] { q->T = spasm_triplet_alloc(q->M2.n, q->M2.m, cap, q->P2, true); for (int t = 0; t < cnt; t++) spasm_add_entry(q->T, ei[t], ej[t], ex[t]); q->csr = spasm_compress(q->T); q->csr2 = spasm_permute(q->csr, q->pp, q->q, 1); spasm_triplet_transpose(q->T); q->csr3 = spasm_compress(q->T); if (grow) { if (grow & 1) spasm_csr_realloc(q->csr3, -1); spasm_csr_resize(q->csr3, q->csr3->n + grow - 1, q->csr3->m + gm); if (grow & 2) spasm_csr_realloc(q->csr3, spasm_nnz(q->csr3) + gm); spasm_triplet_realloc(q->T, -1); } }); break; }
		case OP_SCHURR: { bool focus = s.get("focus"); partial_u(k, f, M.m, r, focus ? 0 : -1); k.inv = focus ? 24 : r.pick({1, 3, 12, 24}); int per = focus ? 1 + r.below(3) : 1 + r.below(k.inv > 2 ? 3 : 8); k.rows = k.inv * per; int Sm = M.m - k.U2->n; k.D = spasm_malloc((i64) k.rows * M.m * 8); k.q = (int *) spasm_malloc((i64) M.m * 4); k.pp = (int *) spasm_malloc((i64) M.n * 4); for (int t = 0; t < M.n; t++) k.pp[t] = t; k.w = focus ? 0 : r.pick({0, 0, 0, -1, 1, 3}); if (!M.n) break; fs.push_back([=] { for (int t = 0; t < q->inv; t++) spasm_schur_dense_randomized(Ac, q->pp, Ac->n, q->U2, q->qi2, (i64 *) q->D + (i64) t * per * Sm, SPASM_I64, q->q, per, q->w); }); break; }
		case OP_SCHURD: { partial_u(k, f, M.m, r); k.D = spasm_malloc((i64) M.n * M.m * 8); k.q = (int *) spasm_malloc((i64) M.m * 4); k.pp = (int *) spasm_malloc((i64) M.n * 8); for (int t = 0; t < M.n; t++) k.pp[t] = t; fs.push_back([=] { struct spasm_lu g = *f; g.U = q->U2; g.qinv = q->qi2; g.L = nullptr; g.Ltmp = nullptr; spasm_schur_dense(Ac, q->pp, Ac->n, nullptr, &g, q->D, SPASM_I64, q->q, q->pp + Ac->n); }); break; }
		case OP_OWN: { k.P2 = r.chance(1, 2) ? (i64) P : gen_prime(r); k.M2 = gen_matrix(r, k.P2, 10, 10); k.A2 = mk_csr(k.M2, k.P2); Spec s2 = s; s2.prime = k.P2; s2.set("fseed", r.next() >> 2); Dense A2 = from_mat(k.M2, k.P2); k.g = get_fact(s2, k.A2, A2, true, r.chance(1, 2)); k.bg = lu_bytes(k.g); k.w = s.get("ownop") ? (int) s.get("ownop") - 1 : (int) r.below(5); const u8 *h = hash;   // another factorization than the other callers, complete or not
			if (k.w == 1) k.q = (int *) spasm_malloc((i64) k.M2.m * 4); if (k.w == 2) { Mat B; B.n = r.below(5); B.m = k.M2.m; for (int i = 0; i < B.n; i++) { Row v(B.m, 0); if (r.chance(2, 3)) { for (int t = 0; t < k.M2.n; t++) if (u64 z = r.next() % k.P2) for (int j = 0; j < B.m; j++) v[j] = (u32) ((v[j] + z * A2.at(t, j)) % k.P2); } else for (auto &x : v) x = (u32) (r.next() % k.P2); for (int j = 0; j < B.m; j++) if (v[j]) B.e.push_back({i, j, bal(v[j], k.P2)}); } k.Bd = from_mat(B, k.P2); k.B = mk_csr(B, k.P2); k.ok = (bool *) spasm_malloc(B.n); }
			int how = k.w; fs.push_back([=] { switch (how) { case 0: q->csr = spasm_kernel(q->g); break; case 1: q->csr = spasm_rref(q->g, q->q); break; case 2: q->csr = spasm_gesv(q->g, q->B, q->ok); break; case 3: q->c = spasm_certificate_rank_create(q->A2, h, q->g); q->res = spasm_certificate_rank_verify(q->A2, h, q->c); break; default: q->res = spasm_factorization_verify(q->A2, q->g, fseed); } }); break; }
		case OP_LOAD: fs.push_back([=] { q->T = spasm_triplet_load(q->f, P, nullptr); q->csr = spasm_compress(q->T); }); break; } }
	std::string bA = csr_bytes(Ac), bF = lu_bytes(f), bR = R ? csr_bytes(R) : "", bp = proof ? std::string((const char *) proof->hash, 32) : "";
	if (fs.empty()) run_done(false);
	Outcome oc = sut_multi(fs); must_return(oc, ctx.c_str()); for (auto &k : C) { if (k.csr) own(k.csr); if (k.lu) own(k.lu); if (k.c) own(k.c); if (k.T) own(k.T); if (k.csr2) own(k.csr2); if (k.csr3) own(k.csr3); if (k.dm) own(k.dm); if (k.op == OP_SCHUR) { own_block(k.q); own_block(k.p); } } if (R) own(R); if (proof) own(proof); sim_end(); probe(PR_R_MULTICALLER);
	if (csr_bytes(Ac) != bA) violation("input-modified", "the shared matrix was modified by " + ctx); if (lu_bytes(f) != bF) violation("input-modified", "the shared factorization was modified by " + ctx); if (R && csr_bytes(R) != bR) violation("input-modified", "the shared RREF was modified by " + ctx);
	for (int c = 0; c < nc; c++) { Caller &k = C[c]; std::string w = S("caller %d of ", c) + ctx; const char *wc = w.c_str(); switch (k.op) {
		case OP_SOLVE: case OP_GESV: { Dense X(k.Bd.n, A.n, P); if (k.op == OP_GESV) { X = csr_dense(k.csr, P, wc); if (X.n != k.Bd.n || X.m != A.n) violation("solve", w + ": wrong dimensions"); } else for (int j = 0; j < A.n; j++) X.at(0, j) = nrm(k.x[j], P); for (int i = 0; i < k.Bd.n; i++) { bool in = sp.contains(&k.Bd.a[(size_t) i * A.m]); if ((k.op == OP_GESV ? k.ok[i] : k.res) != in) violation("solvability", w); if (in) { Dense x(1, A.n, P); for (int j = 0; j < A.n; j++) x.at(0, j) = X.at(i, j); Dense y = mul(x, A); for (int j = 0; j < A.m; j++) if (y.at(0, j) != k.Bd.at(i, j)) violation("solve", w + ": wrong solution"); } } break; }
		case OP_KERNEL: case OP_KRREF: check_kernel(A, rk, k.csr, P, wc); break; case OP_RREF: check_rref(sp, k.csr, k.q, P, wc); break;
		case OP_CERT: { if (k.c->r != rk) violation("certificate", w + ": wrong rank"); bool v = false; Outcome o2 = sut([&] { v = spasm_certificate_rank_verify(Ac, hash, k.c); }); must_return(o2, "spasm_certificate_rank_verify"); if (!v) violation("honest-rejected", w + ": certificate rejected"); break; }
		case OP_CVERIFY: case OP_FVERIFY: if (!k.res) violation("honest-rejected", w + ": honest data rejected"); break; case OP_ECH: check_echelon(A, k.lu, wc); break; case OP_ECHL: check_echelon(A, k.lu, wc); check_pluq(A, k.lu, k.o.complete, wc); break;
		case OP_TRANSPOSE: { Dense T = csr_dense(k.csr, P, wc); if (!(T == transpose(A))) violation("transpose", w); break; }
		case OP_SAVE: { fs_close(k.f); std::string t; fs_get(k.name, t); Parsed O = parse_sms_strict(t); if (!O.ok || O.n != M.n || O.m != M.m) violation("roundtrip", w + ": " + O.why); Mat Z; Z.n = O.n; Z.m = O.m; Z.e = O.e; if (!(from_mat(Z, P) == A)) violation("roundtrip", w + ": wrong entries"); break; }
		case OP_SCHUR: { Dense Sc = csr_dense(k.csr, P, wc); if (Sc.m != A.m || Sc.n != A.n) violation("schur", w + ": wrong dimensions"); Space SU(csr_dense(k.U2, P, "U")); for (int i = 0; i < Sc.n; i++) for (int j = 0; j < A.m; j++) if (k.qi2[j] >= 0 && Sc.at(i, j)) violation("schur", w + S(": entry on pivotal column %d", j)); for (int i = 0; i < Sc.n; i++) { int o = k.q[i]; if (o < 0 || o >= A.n) violation("schur", w + ": bad row map"); Row d(A.m); for (int j = 0; j < A.m; j++) d[j] = (u32) ((A.at(o, j) + P - Sc.at(i, j)) % P); if (!SU.contains(d.data())) violation("schur", w + S(": row %d is not an elimination of row %d", i, o)); } break; }
		case OP_ECHP: { Dense A2 = from_mat(k.M2, k.P2); check_echelon(A2, k.lu, wc); if (k.o.L) check_pluq(A2, k.lu, k.o.complete, wc); break; }
		case OP_LOADP: { Dense D = csr_dense(k.csr, k.P2, wc, true); if (!(D == from_mat(k.M2, k.P2))) violation("load", w + ": wrong entries"); if (hexdig(k.md) != sha256_hex(k.text)) violation("digest", w + ": wrong digest"); break; }
		case OP_DM: { std::map<std::pair<int, int>, u32> e; for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) if (A.at(i, j)) e[{i, j}] = 1; RefDM D = ref_dm(A.n, A.m, e); int want[4] = {}, wantc[4] = {}; for (int x : D.rside) want[x]++; for (int x : D.cside) wantc[x]++; std::vector<char> sr(A.n, 0), sc(A.m, 0);
			for (int i = 0; i < A.n; i++) { int x = k.dm->p[i]; if (x < 0 || x >= A.n || sr[x]++) violation("dm", w + ": rows not permuted"); } for (int j = 0; j < A.m; j++) { int x = k.dm->q[j]; if (x < 0 || x >= A.m || sc[x]++) violation("dm", w + ": columns not permuted"); }
			if (k.dm->rr[0] != 0 || k.dm->cc[0] != 0 || k.dm->rr[4] != A.n || k.dm->cc[4] != A.m) violation("dm", w + ": coarse boundaries"); int h = k.dm->rr[1], sq = k.dm->rr[2] - h, v = A.n - k.dm->rr[2]; if (h != want[1] || sq != want[2] || v != want[3]) violation("dm", w + S(": coarse rows %d %d %d, expected %d %d %d", h, sq, v, want[1], want[2], want[3]));
			for (int i = 0; i < A.n; i++) { int side = i < h ? 1 : i < h + sq ? 2 : 3; if (D.rside[k.dm->p[i]] != side) violation("dm", w + S(": row %d in the wrong part", k.dm->p[i])); } break; }
		case OP_CERTIO: { fs_close(k.f); k.f = fs_open(k.name, "r"); bool l = false, v = false; Outcome o2 = sut([&] { l = spasm_rank_certificate_load(k.f, k.c2); if (l) v = spasm_certificate_rank_verify(Ac, hash, k.c2); }); must_return(o2, "certificate"); fs_close(k.f); if (l) own(k.c2, false); if (!l || !v) violation("honest-rejected", w + ": certificate saved concurrently is rejected"); break; }
		case OP_OWN: { Dense D = from_mat(k.M2, k.P2); Space sd(D); if (lu_bytes(k.g) != k.bg) violation("input-modified", w + ": the factorization was modified"); w += S(", operation %d", k.w); wc = w.c_str(); if (k.w == 0) check_kernel(D, sd.rank(), k.csr, k.P2, wc); else if (k.w == 1) check_rref(sd, k.csr, k.q, k.P2, wc); else if (k.w >= 3) { if (k.w == 3 && k.c->r != sd.rank()) violation("certificate", w + ": wrong rank"); if (!k.res) violation("honest-rejected", w + ": honest data rejected"); }
			else { Dense X = csr_dense(k.csr, k.P2, wc); if (X.n != k.Bd.n || X.m != D.n) violation("solve", w + ": wrong dimensions"); Dense Y = mul(X, D); for (int i = 0; i < k.Bd.n; i++) { bool in = sd.contains(&k.Bd.a[(size_t) i * D.m]); if (k.ok[i] != in) violation("solvability", w); if (in) for (int j = 0; j < D.m; j++) if (Y.at(i, j) != k.Bd.at(i, j)) violation("solve", w + ": wrong solution"); } } break; }
		case OP_HASH: { if (hexdig(k.md) != sha256_hex(k.text)) violation("digest", w + ": wrong digest"); for (int t = 0; t < k.rows; t++) if (k.pp[t] != k.pp[k.rows + t] || nrm(k.pp[t], k.P2) >= (u64) k.P2) violation("generator", w + S(": draw %d differs from the same draw of the same generator", t)); break; }
		case OP_BUILD: { Dense D = from_mat(k.M2, k.P2); if (!(csr_dense(k.csr, k.P2, wc, true) == D)) violation("build", w + ": wrong matrix"); Dense E = csr_dense(k.csr2, k.P2, wc), Tr = csr_dense(k.csr3, k.P2, wc); if (k.inv) { bool ok = Tr.n == D.m + k.inv - 1 && Tr.m == D.n + k.rows; for (int i = 0; ok && i < Tr.n; i++) for (int j = 0; j < Tr.m; j++) ok &= Tr.at(i, j) == (i < D.m && j < D.n ? D.at(j, i) : 0); if (!ok) violation("build", w + ": wrong enlarged transpose"); } else if (!(Tr == transpose(D))) violation("build", w + ": wrong transpose"); bool ok = E.n == D.n && E.m == D.m; for (int i = 0; ok && i < D.n; i++) for (int j = 0; j < D.m; j++) ok &= E.at(i, k.q[j]) == D.at(k.pp[i], j); if (!ok) violation("build", w + ": wrong permuted matrix"); break; }
		case OP_SCHURR: case OP_SCHURD: { if (!k.D || !A.n) break; Space SA(A); int np = k.U2->n, Sm = A.m - np;
			if (k.op == OP_SCHURR && k.inv > 1 && k.w <= 0) { int per = k.rows / k.inv; if ((rk - np) * (double) per * log((double) P) > 45) for (int a = 0; a < k.inv; a++) for (int b = a + 1; b < k.inv; b++) if (!memcmp((i64 *) k.D + (i64) a * per * Sm, (i64 *) k.D + (i64) b * per * Sm, (size_t) per * Sm * 8)) violation("schur", w + S(": invocations %d and %d of one caller drew the same combinations", a, b)); }
			int R = k.op == OP_SCHURR ? k.rows : A.n; Space SU(csr_dense(k.U2, P, "U")); for (int i = 0; i < R; i++) { Row d(A.m, 0); for (int t = 0; t < Sm; t++) { int j = k.q[t]; if (j < 0 || j >= A.m || k.qi2[j] >= 0) violation("schur", w + ": bad column map"); d[j] = nrm(((i64 *) k.D)[(size_t) i * Sm + t], P); } if (k.op == OP_SCHURR ? !SA.contains(d.data()) : false) violation("schur", w + S(": row %d outside of the row space", i));
			if (k.op == OP_SCHURD) { int o = k.pp[A.n + i]; if (o < 0 || o >= A.n) violation("schur", w + ": bad row map"); for (int j = 0; j < A.m; j++) d[j] = (u32) ((A.at(o, j) + P - d[j]) % P); if (!SU.contains(d.data())) violation("schur", w + S(": row %d is not an elimination of row %d", i, o)); } } break; }
		case OP_LOAD: { Dense D = csr_dense(k.csr, P, wc); if (!(D == A)) violation("load", w); break; } }
		if (k.op == OP_SOLVE || k.op == OP_GESV) {} }
	note_hash(ctx.data(), ctx.size()); run_done(!M.e.empty());
}
