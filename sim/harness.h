#pragma once
#include "sim.h"
#include "oracle.h"
extern "C" {
#include "spasm.h"
}
#include <functional>
#include <map>
// spec generation helpers
void gen_env(Rng &r, Spec &s);                       // threads, scheduler, junk, chunks, clocks, rand
void gen_opts(Rng &r, Spec &s, bool wantL);
Mat gen_wide(Rng &r, u64 p);
Mat gen_matrix(Rng &r, u64 p, int maxn, int maxm, bool hard = false);
i64 gen_prime(Rng &r);
StreamPolicy gen_policy(Rng &r);
void pol_to_spec(Spec &s, const char *pfx, const StreamPolicy &p);
StreamPolicy pol_from_spec(const Spec &s, const char *pfx);
// code-under-test data <-> reference data
struct spasm_csr *mk_csr(const Mat &M, i64 p, bool vals = true);
struct echelonize_opts mk_opts(const Spec &s);
Dense csr_dense(const struct spasm_csr *A, u64 p, const char *what, bool nozero = false);
std::string csr_bytes(const struct spasm_csr *A);
void must_return(const Outcome &o, const char *what);
std::string S(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// oracles
void check_echelon(const Dense &A, const struct spasm_lu *f, const char *what);
void check_pluq(const Dense &A, const struct spasm_lu *f, bool complete, const char *what);
void check_rref(const Space &RS, const struct spasm_csr *R, const int *Rqinv, u64 p, const char *what);
void check_kernel(const Dense &A, int rank, const struct spasm_csr *K, u64 p, const char *what);
void reach_probes();
// results of the operation, released with the library's own functions when the scenario concludes
void own(struct spasm_csr *A); void own(struct spasm_triplet *T); void own(struct spasm_lu *f); void own(struct spasm_rank_certificate *c, bool whole = true); void own_partial(struct spasm_lu *f); void own_block(void *p); void own(struct spasm_dm *d);
struct RefDM { std::vector<int> rside, cside; /* 1 H, 2 S, 3 V */ std::vector<int> rcomp, ccomp; std::map<int, int> compsize; int srank = 0; };   // reference Dulmage-Mendelsohn decomposition
RefDM ref_dm(int n, int m, const std::map<std::pair<int, int>, u32> &A);
// property scenarios
typedef void (*GenFn)(Rng &, Spec &);
typedef void (*RunFn)(const Spec &);
struct Scen { const char *name; GenFn gen; RunFn run; };
struct PropDef { const char *id; std::vector<std::pair<int, const char *>> scens; std::vector<const char *> classes; /* empty: all */ const char *rule; };
const Scen *find_scen(const std::string &n);
const PropDef *find_prop(const std::string &id);
void reg_scen(const Scen &s);
#define SCEN(nm) static void gen_##nm(Rng &, Spec &); static void run_##nm(const Spec &); \
	static struct Reg_##nm { Reg_##nm() { reg_scen({#nm, gen_##nm, run_##nm}); } } reg_##nm;
void gen_for(const std::string &prop, u64 seed, Spec &s, const char *force_scen);
void run_spec(const Spec &s);   // does not return
