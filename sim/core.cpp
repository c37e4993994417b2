// Simulator core: one OS thread, threads of the code under test are fibers; every memory access of the
// instrumented code, every OpenMP runtime call, every allocation is a possible scheduling point decided by
// a seeded scheduler.  Implements (a) the libgomp ABI, (b) the __tsan_* instrumentation ABI, (c) the
// allocator, (d) rand/clock/exit replacements.
#include "sim.h"
#include <cstdlib>
#include <cstdarg>
#include <cmath>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <link.h>
#include <algorithm>

Result *RES;
std::string sim_log;
bool sim_crashed;
const char *probe_names[PR_MAX] = {
	"parallel_regions", "lock_contention", "preemptions", "fairness_rotations", "thread_stall", "loop_chunk_perturbed", "realloc_moved",
	"realloc_in_parallel_region", "alloc_failure", "short_read", "read_EIO", "early_eof", "byte_flip_on_read", "short_write", "write_ENOSPC",
	"write_EIO", "process_crash", "lost_write", "torn_write", "clock_jump", "degenerate_random_stream", "certificate_message_corruption",
	"junk_filled_memory", "open_failure", "close_failure", "shared_memory_accesses", "spin_iterations", "transient_write_error", "transient_read_error", "memory_limit_reached", "waiting_thread_runs_alone",
	"reach_multi_round", "reach_gplu", "reach_dense", "reach_lowrank", "reach_lowrank_switch", "reach_completion_test", "reach_full_rank",
	"reach_empty_matrix", "reach_cyclefree_concurrent", "reach_output_growth", "reach_L", "reach_complete_L", "reach_unsolvable_rhs", "reach_rank0",
	"reach_prime_above_2_31", "reach_duplicates", "reach_matrixmarket", "reach_sms", "reach_certificate_accepted", "reach_rejected",
	"reach_failstop", "reach_correct_despite_fault", "reach_multi_caller", "reach_growth_waits_for_writers", "earlier_operations_in_the_same_process"
};

// ------------------------------------------------------------------ arena
#define ARENA   0x200000000000ull
#define HEAPSZ  (8ull << 30)
#define LIVEMAX (1ull << 30)    // memory of the simulated machine
#define ONEMAX  (256ull << 20)  // largest single block it grants
#define NSLOT   96
#define STKSZ   (1ull << 19)
#define STKAREA (NSLOT * STKSZ)
#define TOTAL   (HEAPSZ + STKAREA)
static u8 *bshadow;     // per 8-byte granule of the heap: 8 = fully addressable, 1..7 = partial, 0 = unallocated/redzone, 0xFD = freed
static u8 *owner;       // per 8-byte granule of heap + stacks
bool sim_mm_checks = true;

struct Block { u64 addr, size; bool live, ours; };   // ours: allocated by the caller (harness), not by the code under test
static std::vector<Block> *blocks;
static u64 heap_top, live_bytes; static bool exhausted;
struct Hdr { u64 magic, idx; u8 pad[16]; };
#define MAGIC 0x51A7C0DEB10CF00Dull
#define RZ 32

// ------------------------------------------------------------------ fibers
enum FState { F_FREE, F_RUN, F_BLOCK, F_DONE };
struct Team; struct Ctx { void *rsp; };
struct WS { bool init = false; bool ull = false; i64 next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; bool up = true;
	u64 unext = 0, uend = 0, uincr = 1; bool single = false; void *copy = nullptr; std::vector<int> ord; size_t ordh = 0; unsigned sections = 0, snext = 1; int done = 0; };
struct Team { int n; int alive; u64 bar_gen = 0; int bar_in = 0; std::vector<WS*> ws; int caller; void *cp = nullptr; };
struct Fiber {
	FState st = F_FREE; Ctx ctx; Team *team = nullptr; int tid = 0; int wsi = -1; int caller = 0;
	void (*fn)(void *) = nullptr; void *data = nullptr; const std::function<void()> *top = nullptr;
	const void *waiting = nullptr; u64 stall_until = 0; int spins = 0; const volatile void *spin_at = nullptr; int prio = 0; int sav_errno = 0; std::vector<u8> tls; int level = 0;
	int nthreads_var = 0;
};
static Fiber fib[NSLOT]; static int hiw = NSLOT;   // slots ever used in this run

static Ctx harness_ctx;
static Outcome outcome;
static bool in_sut;
static int sut_calls;
int history_phase;   // 1: an earlier operation of the same kind is running, 2: of another kind

enum { POL_RW, POL_PCT, POL_RR, POL_STALL };
static struct {
	u64 ev, next_check, cap, last_switch, fair;
	i64 cd; int cur; int nrun_hint;
	int policy; double mean; int hotcost, synccost;
	Rng srng; int prio_low;
	bool replay; size_t swi; const std::vector<Switch> *sw;
	int T; u64 now_ns; u64 allocs; u64 alloc_base;
	int junk; u64 junkseed; int chunkmode; Rng crng;
	int randmode; Rng rrng; int randconst; u64 rand_calls;
	bool tlskeep, reuse; int clockmode; Rng krng; int nlive; u64 schedhash, hash; u64 stall_ev; u64 burst, burst_until; int bursts, burst_spins;
	u64 clock_calls;
} G;

static u8 *tls_base; static size_t tls_size;
static std::map<u64, std::vector<u8>> *tls_kept;   // thread-local data of pool threads, which outlive parallel regions
static u64 tls_key(const Fiber &f) { return ((u64) f.caller * 8 + f.level) * 64 + f.tid; }
static std::vector<u8> tls_init;

extern "C" void sim_swap(Ctx *from, Ctx *to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq (%rsi), %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_swap,.-sim_swap
)");

bool sim_in_sut() { return in_sut; }
void probe(int p, u64 n) { RES->probe[p] += n; }
void note_hash(u64 x) { G.hash = mix64(G.hash ^ x) + 0x1234567; }
void note_hash(const void *p, size_t n) { const u8 *b = (const u8 *) p; u64 h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull; note_hash(h ^ n); }

static void finish_result(int status) {
	note_hash(G.ev); note_hash(G.schedhash);
	RES->events = G.ev; RES->simtime_ns = G.now_ns; RES->hash = G.hash; RES->schedhash = G.schedhash; RES->allocs = G.allocs;
	struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); RES->heap = heap_top; RES->cpu_us = ts.tv_sec * 1000000ull + ts.tv_nsec / 1000;
	__sync_synchronize(); RES->status = status;
}
void violation(const std::string &cls, const std::string &msg) {
	if (in_sut) in_sut = false;
	if (history_phase == 2) { finish_result(4); _exit(0); }   // an operation that another property is about failed: no verdict
	note_hash(cls.data(), cls.size());
	snprintf(RES->cls, sizeof RES->cls, "%s", cls.c_str()); snprintf(RES->msg, sizeof RES->msg, "%s", msg.c_str());
	finish_result(exhausted && cls.compare(0, 4, "mem:") ? 4 : 2); _exit(0);   // out of simulated memory: no verdict
}
void harness_error(const std::string &msg) {
	snprintf(RES->cls, sizeof RES->cls, "harness"); snprintf(RES->msg, sizeof RES->msg, "%s", msg.c_str());
	finish_result(3); _exit(0);
}
void (*sim_on_done)();
void run_done(bool nontrivial) { if (sim_on_done) sim_on_done(); RES->nontrivial = nontrivial; if (history_phase) throw HistoryDone(); finish_result(1); _exit(0); }
bool log_has(const char *s) { return sim_log.find(s) != std::string::npos; }
std::string Outcome::str() const {
	const char *n[] = {"returned", "exit", "abort", "memory-error", "hang", "deadlock"};
	std::string r = n[kind]; if (kind == O_EXIT) r += "(" + std::to_string(code) + ")"; if (!msg.empty()) r += ": " + msg; return r;
}

// terminate the simulated process: abandon all fibers, go back to the harness
void sim_die(OutKind k, int code, const std::string &msg) {
	outcome = {k, code, msg};
	in_sut = false;
	Ctx dummy; sim_swap(&dummy, &harness_ctx); abort();
}

// ------------------------------------------------------------------ scheduler
static inline bool runnable(int f) { return fib[f].st == F_RUN; }
static void draw_cd() {
	if (G.replay) { G.cd = INT64_MAX / 2; return; }
	double u = G.srng.unit(); if (u < 1e-12) u = 1e-12;
	G.cd = 1 + (i64) (-log(u) * G.mean);
}
static void set_next_check() {
	u64 n = G.cap;
	if (G.nlive > 1) {
		n = std::min(n, G.last_switch + G.fair);
		if (G.replay && G.swi < G.sw->size()) n = std::min(n, std::max(G.ev + 1, (*G.sw)[G.swi].ev));
	}
	G.next_check = n;
}
static void do_switch(int to) {
	int from = G.cur;
	G.schedhash = mix64(G.schedhash ^ (G.ev * 64 + to));
	if (RES->nsw < MAXSW) { RES->sw[RES->nsw].ev = G.ev; RES->sw[RES->nsw].to = to; RES->nsw++; }
	RES->switches++;
	G.last_switch = G.ev; G.cur = to; G.burst_until = 0;
	draw_cd(); set_next_check();
	fib[from].sav_errno = errno;
	if (tls_size) { if (fib[from].tls.size() != tls_size) fib[from].tls.resize(tls_size);
		memcpy(fib[from].tls.data(), tls_base, tls_size); memcpy(tls_base, fib[to].tls.data(), tls_size); }
	errno = fib[to].sav_errno;
	sim_swap(&fib[from].ctx, &fib[to].ctx);
}
// choose who runs next; must: current cannot continue
static int choose(bool must) {
	int cand[NSLOT], n = 0, all[NSLOT], na = 0;
	for (int i = 0; i < hiw; i++) if (runnable(i) && !(must && i == G.cur)) {
		all[na++] = i; if (fib[i].stall_until <= G.ev) cand[n++] = i; }
	if (n == 0) { if (na == 0) return -1; memcpy(cand, all, na * sizeof *all); n = na; }
	if (G.replay) { // default: next runnable after current
		for (int i = 0; i < n; i++) if (cand[i] > G.cur) return cand[i];
		return cand[0];
	}
	switch (G.policy) {
	case POL_PCT: { int b = cand[0]; for (int i = 1; i < n; i++) if (fib[cand[i]].prio > fib[b].prio) b = cand[i]; return b; }
	case POL_RR: { for (int i = 0; i < n; i++) if (cand[i] > G.cur) return cand[i]; return cand[0]; }
	default: return cand[G.srng.below(n)];
	}
}
static void slow_point() {
	if (G.ev >= G.cap) sim_die(O_HANG, 0, "step limit reached (" + std::to_string(G.ev) + " steps without completion)");
	if (G.burst_until > G.ev) { G.next_check = std::min(G.cap, G.burst_until); G.cd = INT64_MAX / 2; return; }
	if (G.nlive > 1 && G.ev - G.last_switch >= G.fair) { // forced rotation: every thread is eventually scheduled
		int t = -1;
		for (int k = 1; k < hiw; k++) { int i = (G.cur + k) % hiw; if (runnable(i) && fib[i].stall_until <= G.ev) { t = i; break; } }
		probe(PR_FORCED_ROT);
		G.last_switch = G.ev;
		if (G.replay && G.swi < G.sw->size() && (*G.sw)[G.swi].ev == G.ev && (*G.sw)[G.swi].to < NSLOT && runnable((*G.sw)[G.swi].to)) t = (*G.sw)[G.swi].to;
		if (t >= 0 && t != G.cur) { while (G.replay && G.swi < G.sw->size() && (*G.sw)[G.swi].ev <= G.ev) G.swi++; do_switch(t); return; }
	} else if (G.replay) {
		while (G.swi < G.sw->size() && (*G.sw)[G.swi].ev <= G.ev) {
			int t = (*G.sw)[G.swi++].to;
			if (t >= 0 && t < NSLOT && runnable(t) && t != G.cur) { probe(PR_PREEMPT); do_switch(t); return; }
		}
	} else if (G.cd <= 0) {
		if (G.policy == POL_PCT) fib[G.cur].prio = --G.prio_low;
		if (G.policy == POL_STALL && G.srng.chance(1, 4)) { fib[G.cur].stall_until = G.ev + 1 + G.srng.below(G.stall_ev); probe(PR_STALL); }
		int t = choose(false);
		if (t >= 0 && t != G.cur) { probe(PR_PREEMPT); do_switch(t); return; }
		draw_cd();
	}
	set_next_check();
}
static inline void tick(int cost) {
	G.ev++;
	if (G.nlive > 1) G.cd -= cost;
	if (__builtin_expect(G.ev >= G.next_check || G.cd <= 0, 0)) { if (in_sut) slow_point(); }
}
// a thread that waits in a loop gets the processor for itself for a long time: those it waits for are stalled that long
static inline void spinning(const volatile void *at, bool fence) {
	if (!G.burst || G.nlive < 2) return;
	Fiber &f = fib[G.cur];
	if (!fence && f.spin_at != at) { f.spin_at = at; f.spins = 0; return; }
	if (++f.spins >= G.burst_spins && G.bursts < 2 && !G.burst_until && in_sut) { f.spins = 0; G.bursts++; G.burst_until = G.ev + G.burst; probe(PR_BURST); G.next_check = std::min(G.cap, G.burst_until); G.cd = INT64_MAX / 2; }
}
static void block_on(const void *what) {  // current fiber cannot run until woken
	Fiber &f = fib[G.cur];
	f.st = F_BLOCK; f.waiting = what;
	G.ev++;
	int t = -1;
	if (G.replay) while (G.swi < G.sw->size() && (*G.sw)[G.swi].ev <= G.ev) { int c = (*G.sw)[G.swi++].to; if (c >= 0 && c < NSLOT && runnable(c)) { t = c; break; } }
	if (t < 0) t = choose(true);
	if (t < 0) sim_die(O_DEADLOCK, 0, "no runnable thread");
	do_switch(t);
}
static void wake(const void *what) { for (int i = 0; i < hiw; i++) if (fib[i].st == F_BLOCK && fib[i].waiting == what) { fib[i].st = F_RUN; fib[i].waiting = nullptr; } }

static void fiber_entry();
static void fiber_setup(int i) {
	Fiber &f = fib[i];
	u64 top = ARENA + HEAPSZ + (u64) (i + 1) * STKSZ - 256;
	top &= ~63ull;
	u64 fill = f.top ? 48 << 10 : 16 << 10;   // locals the code forgets to initialise do not read as zero
	memset((void *) (top - fill), G.junk == 0 ? 0 : G.junk == 1 ? 0xFF : G.junk == 2 ? 0xCB : G.junk == 3 ? 1 : (int) (mix64(G.junkseed + i) & 0xFF), fill);
	u64 *sp = (u64 *) top;
	*--sp = 0; *--sp = 0; *--sp = 0;   // alignment: at function entry rsp % 16 == 8
	*--sp = (u64) fiber_entry;
	for (int k = 0; k < 6; k++) *--sp = 0;
	f.ctx.rsp = sp; f.sav_errno = 0; f.stall_until = 0; f.spins = 0; f.spin_at = nullptr; f.waiting = nullptr;
	if (tls_size) { auto it = tls_kept->find(tls_key(f)); f.tls = it == tls_kept->end() ? tls_init : it->second; }
	memset(owner + ((HEAPSZ + (u64) i * STKSZ) >> 3), 0, STKSZ >> 3);
}
static void fiber_entry() {
	Fiber &f = fib[G.cur];
	if (f.top) (*f.top)(); else f.fn(f.data);
	Fiber &g = fib[G.cur]; if (tls_size && G.tlskeep) (*tls_kept)[tls_key(g)].assign(tls_base, tls_base + tls_size);
	g.st = F_DONE; G.nlive--;
	if (g.top) {  // caller thread finished
		bool any = false;
		for (int i = 0; i < hiw; i++) if (fib[i].top && fib[i].st != F_DONE && fib[i].st != F_FREE) any = true;
		if (!any) { outcome = {O_RETURNED, 0, ""}; in_sut = false; Ctx d; sim_swap(&d, &harness_ctx); abort(); }
	} else { // team worker finished
		Team *t = g.team; t->alive--;
		if (t->alive == 0) wake(t);
		g.st = F_FREE;
	}
	G.ev++;
	int t = -1;
	if (G.replay) while (G.swi < G.sw->size() && (*G.sw)[G.swi].ev <= G.ev) { int c = (*G.sw)[G.swi++].to; if (c >= 0 && c < NSLOT && runnable(c)) { t = c; break; } }
	if (t < 0) t = choose(true);
	if (t < 0) sim_die(O_DEADLOCK, 0, "no runnable thread at thread exit");
	do_switch(t);
	abort();
}
static int new_slot() { for (int i = 0; i < NSLOT; i++) if (fib[i].st == F_FREE) { hiw = std::max(hiw, i + 1); return i; } harness_error("out of fiber slots"); }

Outcome sut_multi(const std::vector<std::function<void()>> &fs) {
	for (int i = 0; i < NSLOT; i++) { fib[i] = Fiber(); }
	hiw = std::max<int>(1, fs.size());
	for (size_t c = 0; c < fs.size(); c++) {
		fib[c].st = F_RUN; fib[c].top = &fs[c]; fib[c].caller = c; fiber_setup(c);
		fib[c].prio = 1000 + (int) G.srng.below(1000);
	}
	G.nlive = fs.size(); G.cur = 0; G.last_switch = G.ev; draw_cd(); set_next_check();
	if (fs.size() > 1 && !G.replay) { G.cur = choose(false); }
	if (fs.size() > 1 && G.replay) { if (G.swi < G.sw->size() && (*G.sw)[G.swi].ev == G.ev) { int c = (*G.sw)[G.swi++].to; if (runnable(c)) G.cur = c; } }
	if (fs.size() > 1) { if (RES->nsw < MAXSW) { RES->sw[RES->nsw].ev = G.ev; RES->sw[RES->nsw].to = G.cur; RES->nsw++; } G.ev++; }
	if (tls_size) memcpy(tls_base, fib[G.cur].tls.data(), tls_size);
	in_sut = true; sut_calls++; errno = 0;
	sim_swap(&harness_ctx, &fib[G.cur].ctx);
	in_sut = false;
	G.nlive = 0;
	note_hash(G.ev); note_hash((u64) outcome.kind * 1000 + outcome.code);
	return outcome;
}
Outcome sut(const std::function<void()> &f) { std::vector<std::function<void()>> v{f}; return sut_multi(v); }

// ------------------------------------------------------------------ memory checks
static std::string hex(u64 x) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long) x); return b; }
static void bad_access(u64 a, int size, bool w) {
	// describe relative to nearest block
	std::string d; const char *cls = "mem:out-of-bounds";
	u8 s = bshadow[(a - ARENA) >> 3];
	u8 s2 = bshadow[(a + size - 1 - ARENA) >> 3];
	if (s == 0xFD || s2 == 0xFD) cls = "mem:use-after-free";
	i64 best = -1;
	for (size_t i = 0; i < blocks->size(); i++) if ((*blocks)[i].addr <= a && (best < 0 || (*blocks)[i].addr > (*blocks)[best].addr)) best = i;
	if (best >= 0) d = " at offset " + std::to_string(a - (*blocks)[best].addr) + " of block #" + std::to_string(best) + " (size " + std::to_string((*blocks)[best].size) + ((*blocks)[best].live ? ", live)" : ", freed)");
	sim_die(O_MEM, 0, std::string(cls) + ": " + (w ? "write" : "read") + " of " + std::to_string(size) + " bytes" + d);
}
static inline void check_range(u64 a, u64 size, bool w) {
	u64 off = a - ARENA;
	if (off >= HEAPSZ || !in_sut || size == 0) return;
	u64 g0 = off >> 3, g1 = (off + size - 1) >> 3;
	for (u64 g = g0; g <= g1; g++) {
		u8 s = bshadow[g];
		if (s == 8) continue;
		u64 last = (g == g1) ? ((off + size - 1) & 7) : 7;
		if (s >= 1 && s < 8 && last < s) continue;
		u64 aa = std::max<u64>(a, ARENA + g * 8); if (s >= 1 && s < 8 && aa < ARENA + g * 8 + s) aa = ARENA + g * 8 + s;
		bad_access(aa, (int) std::min<u64>(size, 16), w);
	}
}
static inline void acc(u64 a, u64 size, bool w) {
	u64 off = a - ARENA;
	if (__builtin_expect(off < HEAPSZ, 1)) {
		u64 g = off >> 3;
		if (__builtin_expect(bshadow[g] != 8 || ((off & 7) + size > 8), 0)) check_range(a, size, w);
	}
	int cost = 1;
	if (off < TOTAL) {
		u8 *o = owner + (off >> 3); u8 me = (u8) (G.cur + 1);
		if (*o == 0xFF) { cost = G.hotcost; probe(PR_HOT_ACCESS); }
		else if (*o == me) {}
		else if (w) { if (*o == 0) *o = me; else { *o = 0xFF; cost = G.hotcost; } }
		else if (*o != 0 && *o != 0xFE) { *o = 0xFE; cost = 2; }
	} else cost = 2;
	tick(cost);
}
extern "C" {
#define RW(N) void __tsan_read##N(void *p) { acc((u64) p, N, false); } void __tsan_write##N(void *p) { acc((u64) p, N, true); } \
	void __tsan_unaligned_read##N(void *p) { acc((u64) p, N, false); } void __tsan_unaligned_write##N(void *p) { acc((u64) p, N, true); } \
	void __tsan_volatile_read##N(void *p) { acc((u64) p, N, false); } void __tsan_volatile_write##N(void *p) { acc((u64) p, N, true); } \
	void __tsan_unaligned_volatile_read##N(void *p) { acc((u64) p, N, false); } void __tsan_unaligned_volatile_write##N(void *p) { acc((u64) p, N, true); } \
	void __tsan_read_write##N(void *p) { acc((u64) p, N, true); } void __tsan_unaligned_read_write##N(void *p) { acc((u64) p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { acc((u64) p, 8, true); }
void __tsan_vptr_read(void **p) { acc((u64) p, 8, false); }
static void range(u64 p, u64 n, bool w) { check_range(p, n, w); for (u64 i = 0; i < n; i += 8) { u64 off = p + i - ARENA; if (off < TOTAL) { u8 *o = owner + (off >> 3); u8 me = G.cur + 1;
	if (*o == 0xFF || *o == me) {} else if (w) *o = *o == 0 ? me : 0xFF; else if (*o != 0) *o = 0xFE; } } tick(G.hotcost); }
void __tsan_read_range(void *p, u64 n) { range((u64) p, n, false); }
void __tsan_write_range(void *p, u64 n) { range((u64) p, n, true); }
static inline void atom(volatile void *p, int n) { check_range((u64) p, n, true); spinning(p, false); tick(G.synccost); }
#define ATOM(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int) { atom((volatile void *) a, sizeof(T)); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int) { atom(a, sizeof(T)); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { atom(a, sizeof(T)); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { atom(a, sizeof(T)); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { atom(a, sizeof(T)); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { atom(a, sizeof(T)); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { atom(a, sizeof(T)); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { atom(a, sizeof(T)); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { atom(a, sizeof(T)); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atom(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atom(a, sizeof(T)); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atom(a, sizeof(T)); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64) ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int) { probe(PR_SPIN); spinning(nullptr, true); tick(G.synccost); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ allocator
void *sim_malloc(size_t size); extern "C" void *sim_aligned_alloc(size_t al, size_t size);
static std::map<u64, std::vector<u32>> *pool;   // released blocks by size, when addresses are used again
static void *raw_alloc(u64 size, u64 al = 16) {
	if (size > ONEMAX) { if (size < (2ull << 30)) exhausted = true; return nullptr; }   // a real machine would have granted less than 2 GB
	if (G.reuse && size && al <= 16) { auto it = pool->find(size); if (it != pool->end() && !it->second.empty() && live_bytes + size <= LIVEMAX) {
		Block &b = (*blocks)[it->second.back()]; it->second.pop_back(); u64 off = b.addr - ARENA; b.live = true; b.ours = !in_sut; live_bytes += size;
		memset(bshadow + (off >> 3), 8, size >> 3); if (size & 7) bshadow[(off + size) >> 3] = size & 7; memset(owner + (off >> 3), 0, ((size + 7) >> 3) + 1); return (void *) b.addr; } }
	if (live_bytes + size > LIVEMAX || heap_top + size + 2 * RZ + 64 + al > HEAPSZ) { exhausted = true; return nullptr; }
	u64 off = heap_top + sizeof(Hdr); off = (off + 15) & ~15ull;
	if (al > 16) off = ((ARENA + off + al - 1) & ~(al - 1)) - ARENA;
	u64 a = ARENA + off;
	Hdr *h = (Hdr *) (a - sizeof(Hdr)); h->magic = MAGIC; h->idx = blocks->size(); memset(h->pad, 0xA5, 16);
	blocks->push_back({a, size, true, !in_sut});
	u64 padded = (size + 7) & ~7ull;
	memset((void *) (a + size), 0xA5, padded - size + RZ);
	memset(bshadow + (off >> 3), 8, size >> 3);
	if (size & 7) bshadow[(off + size) >> 3] = size & 7;
	memset(owner + (off >> 3), 0, (padded >> 3) + 1);
	heap_top = off + padded + RZ; live_bytes += size;
	return (void *) a;
}
static std::map<u64, std::vector<std::string>> *stale;   // contents of released blocks by size, handed out again in last-in first-out order as by a caching allocator
static void junk_fill(void *p, u64 size) {
	if (!size) return;
	if (G.junk == 5) { auto it = stale->find(size); if (it != stale->end() && !it->second.empty()) { memcpy(p, it->second.back().data(), size); it->second.pop_back(); probe(PR_JUNK_MEM); return; } }
	switch (G.junk) {
	case 0: memset(p, 0, size); break;
	case 1: memset(p, 0xFF, size); break;
	case 2: memset(p, 0xCB, size); break;
	case 3: { Rng r(G.junkseed ^ G.allocs); u32 *q = (u32 *) p; for (u64 i = 0; i < size / 4; i++) q[i] = (u32) r.below(7); for (u64 i = size & ~3ull; i < size; i++) ((u8 *) p)[i] = 1; break; }
	default: { Rng r(G.junkseed ^ G.allocs); u8 *q = (u8 *) p; u64 i = 0; for (; i + 8 <= size; i += 8) { u64 v = r.next(); memcpy(q + i, &v, 8); } for (; i < size; i++) q[i] = r.next(); break; }
	}
	probe(PR_JUNK_MEM);
}
// what the harness itself allocates: the arrays it hands over to receive results hold anything too
static void outside_fill(void *p, u64 size) {
	switch (G.junk) {
	case 0: memset(p, 0, size); break;
	case 1: memset(p, 0xFF, size); break;
	case 2: memset(p, 0xCB, size); break;
	case 3: case 5: { Rng r(G.junkseed ^ size); u32 *q = (u32 *) p; for (u64 i = 0; i < size / 4; i++) q[i] = (u32) r.below(G.junk == 3 ? 2 : 7); for (u64 i = size & ~3ull; i < size; i++) ((u8 *) p)[i] = 1; break; }
	default: { Rng r(G.junkseed ^ size ^ 77); u8 *q = (u8 *) p; for (u64 i = 0; i < size; i++) q[i] = (u8) r.next(); break; }
	}
}
struct AllocRule { i64 first, count; i64 size, cap; };
static std::vector<AllocRule> *arules; static u64 refused_in_a_row;
static bool alloc_gate(size_t size) {
	tick(G.synccost);
	u64 k = G.allocs++; i64 d = (i64) (k - G.alloc_base); bool fail = false;
	for (auto &r : *arules) fail |= r.first >= 0 ? d >= r.first && d - r.first < r.count : r.size >= 0 ? (i64) size >= r.size : (i64) (live_bytes + size) > r.cap;
	if (fail) { probe(PR_ALLOC_FAIL); if (arules->back().first < 0) probe(PR_ALLOC_LIMIT); errno = ENOMEM; if (++refused_in_a_row > 200000) sim_die(O_HANG, 0, "a failing allocation is requested again and again"); return false; }
	refused_in_a_row = 0;
	return true;
}
void *sim_malloc(size_t size) { return sim_aligned_alloc(16, size); }
void *sim_aligned_alloc(size_t al, size_t size) {
	if (!in_sut) { void *p = raw_alloc(size, al); if (p) outside_fill(p, size); return p; }
	if (!alloc_gate(size)) return nullptr;
	void *p = raw_alloc(size, al);
	if (!p) { errno = ENOMEM; return nullptr; }
	junk_fill(p, size); return p;
}
void *sim_calloc(size_t n, size_t s) {
	if (s && n > (1ull << 40) / s) { errno = ENOMEM; return nullptr; }
	if (in_sut && !alloc_gate(n * s)) return nullptr;
	void *p = raw_alloc(n * s); if (!p) { errno = ENOMEM; return nullptr; }
	memset(p, 0, n * s); return p;
}
static bool block_canary(const Block &b) {
	Hdr *h = (Hdr *) (b.addr - sizeof(Hdr)); if (h->magic != MAGIC) return false; for (int i = 0; i < 16; i++) if (h->pad[i] != 0xA5) return false;
	u64 padded = (b.size + 7) & ~7ull; const u8 *q = (const u8 *) (b.addr + b.size); for (u64 i = 0; i < padded - b.size + RZ; i++) if (q[i] != 0xA5) return false;
	return true;
}
static void release(void *p, const char *op) {
	u64 a = (u64) p;
	Hdr *h = (Hdr *) (a - sizeof(Hdr));
	if (a - ARENA < 64 || (a & 15) || h->magic != MAGIC || h->idx >= blocks->size() || (*blocks)[h->idx].addr != a) sim_die(O_MEM, 0, std::string("mem:bad-free: ") + op + " of a pointer that is not the start of a block");
	Block &b = (*blocks)[h->idx];
	if (!b.live) sim_die(O_MEM, 0, std::string("mem:double-free: ") + op + " of block #" + std::to_string(h->idx) + " already released");
	if (!block_canary(b)) sim_die(O_MEM, 0, "mem:overflow: bytes around block #" + std::to_string(h->idx) + " (size " + std::to_string(b.size) + ") overwritten");
	b.live = false; live_bytes -= b.size;
	if (G.junk == 5 && b.size && b.size <= 65536) { auto &v = (*stale)[b.size]; if (v.size() < 7) v.push_back(std::string((char *) p, b.size)); }
	u64 off = a - ARENA, padded = (b.size + 7) & ~7ull; if (G.reuse && b.size <= 65536) (*pool)[b.size].push_back(h->idx);
	memset(bshadow + (off >> 3), 0xFD, padded >> 3);
	u64 lo = (a + 4095) & ~4095ull, hi = (a + b.size) & ~4095ull;
	if (b.size >= (1 << 20)) { memset(p, 0xDD, lo - a); madvise((void *) lo, hi - lo, MADV_DONTNEED); memset((void *) hi, 0xDD, a + b.size - hi); }
	else memset(p, 0xDD, b.size);
}
void sim_free(void *p) {
	if (!p) return;
	if ((u64) p - ARENA >= HEAPSZ) { free(p); return; }
	if (in_sut) tick(G.synccost);
	release(p, "free");
}
void *sim_realloc(void *p, size_t size) {
	if (!p) return sim_malloc(size);
	if ((u64) p - ARENA >= HEAPSZ) return realloc(p, size);
	if (size == 0) { sim_free(p); return nullptr; }   // glibc semantics
	if (in_sut && !alloc_gate(size)) return nullptr;
	Hdr *h = (Hdr *) ((u64) p - sizeof(Hdr));
	if (h->magic != MAGIC || h->idx >= blocks->size() || (*blocks)[h->idx].addr != (u64) p || !(*blocks)[h->idx].live) release(p, "realloc");
	u64 old = (*blocks)[h->idx].size;
	void *q = raw_alloc(size); if (!q) { errno = ENOMEM; return nullptr; }
	if (in_sut) junk_fill(q, size);
	memcpy(q, p, std::min<u64>(old, size));
	probe(PR_REALLOC_MOVE); if (G.nlive > 1) probe(PR_REALLOC_WHILE_PAR);
	release(p, "realloc");
	return q;
}
void *sim_reallocarray(void *p, size_t n, size_t s) { size_t t; if (__builtin_mul_overflow(n, s, &t)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, t); }
void *sim_memalign(size_t al, size_t size) { return sim_aligned_alloc(al, size); }
int sim_posix_memalign(void **out, size_t al, size_t size) { int e = errno; void *p = sim_aligned_alloc(al, size); errno = e; if (!p) return ENOMEM; *out = p; return 0; }
char *sim_strndup(const char *s, size_t n) { n = strnlen(s, n); char *p = (char *) sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **out, const char *f, va_list ap) { char *q = nullptr; int n = vasprintf(&q, f, ap); if (n < 0) return n; char *p = (char *) sim_malloc(n + 1); if (p) memcpy(p, q, n + 1); free(q); if (!p) return -1; *out = p; return n; }
int sim_asprintf(char **out, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(out, f, ap); va_end(ap); return r; }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
	char *q = nullptr; size_t k = 0; ssize_t r = getdelim(&q, &k, d, f); int e = errno; tick(G.synccost);
	if (r >= 0) { if (!*l || *n < (size_t) r + 1) { size_t w = r + 1 < 120 ? 120 : r + 1; char *p = (char *) sim_realloc(*l, w); if (!p) { free(q); return -1; } *l = p; *n = w; } memcpy(*l, q, r + 1); }
	free(q); errno = e; return r; }
ssize_t sim___getdelim(char **l, size_t *n, int d, FILE *f) { return sim_getdelim(l, n, d, f); }
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void *sim_memcpy(void *d, const void *s, size_t n) { if (in_sut) { range((u64) s, n, false); range((u64) d, n, true); } return memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { if (in_sut) { range((u64) s, n, false); range((u64) d, n, true); } return memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { if (in_sut) range((u64) d, n, true); return memset(d, c, n); }

// ------------------------------------------------------------------ randomness, clocks, termination
int sim_rand() {
	G.rand_calls++;
	if (in_sut) tick(2);
	switch (G.randmode) {
	case 1: probe(PR_RAND_DEGEN); return G.randconst;
	case 2: probe(PR_RAND_DEGEN); return (int) G.rrng.below(2);
	case 3: probe(PR_RAND_DEGEN); return (int) (G.rand_calls & 0x7fffffff);
	default: return (int) (G.rrng.next() & 0x7fffffff);
	}
}
void sim_srand(unsigned s) { if (G.randmode == 0) G.rrng = Rng(s * 77777ull + G.junkseed); }
long sim_random() { return sim_rand(); }
int sim_rand_r(unsigned *s) { *s = *s * 1103515245 + 12345; return (int) ((*s >> 1) & 0x7fffffff); }
static u64 clock_read() {
	G.clock_calls++;
	G.now_ns += 1000 + G.ev % 97;
	if (G.clockmode == 1 && G.krng.chance(1, 3)) { probe(PR_CLOCK_JUMP); i64 j = (i64) (G.krng.below(7200) * 1000000000ull); G.now_ns += j; }
	u64 t = 1700000000ull * 1000000000ull + G.now_ns + G.ev * 10;
	if (G.clockmode == 2 && G.krng.chance(1, 3)) { probe(PR_CLOCK_JUMP); t -= G.krng.below(86400) * 1000000000ull; }
	return t;
}
int sim_gettimeofday(struct timeval *tv, void *) { u64 t = clock_read(); tv->tv_sec = t / 1000000000ull; tv->tv_usec = t % 1000000000ull / 1000; return 0; }
time_t sim_time(time_t *p) { time_t t = clock_read() / 1000000000ull; if (p) *p = t; return t; }
int sim_clock_gettime(int, struct timespec *ts) { u64 t = clock_read(); ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0; }
clock_t sim_clock() { return clock_read() / 1000; }
unsigned sim_sleep(unsigned s) { G.now_ns += s * 1000000000ull; tick(G.synccost); return 0; }
int sim_usleep(unsigned us) { G.now_ns += us * 1000ull; tick(G.synccost); return 0; }
int sim_nanosleep(const struct timespec *ts, void *) { G.now_ns += ts->tv_sec * 1000000000ull + ts->tv_nsec; tick(G.synccost); return 0; }
int sim_sched_yield() { G.cd = 0; tick(1); return 0; }

// handlers run once, last registered first, before the streams are flushed; a handler may itself terminate the process
static std::vector<std::pair<void (*)(int, void *), void *>> *exit_handlers = new std::vector<std::pair<void (*)(int, void *), void *>>; static void call_plain(int, void *f) { ((void (*)()) f)(); }
int sim_atexit(void (*f)()) { exit_handlers->push_back({call_plain, (void *) f}); return 0; }
int sim_on_exit(void (*f)(int, void *), void *a) { exit_handlers->push_back({f, a}); return 0; }
void sim_exit(int code) { if (!in_sut) _exit(97); while (!exit_handlers->empty()) { auto h = exit_handlers->back(); exit_handlers->pop_back(); h.first(code, h.second); } in_sut = false; fs_flush_all(); in_sut = true; sim_die(O_EXIT, code, ""); }
void sim__exit(int code) { sim_die(O_EXIT, code, ""); }
void sim__Exit(int code) { sim_die(O_EXIT, code, ""); }
void sim_abort() { sim_die(O_ABORT, 134, "abort"); }
void sim___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
	(void) line; const char *b = strrchr(file, '/'); sim_die(O_ABORT, 134, std::string("assertion `") + e + "' failed in " + fn + " (" + (b ? b + 1 : file) + ")"); }
void sim___stack_chk_fail() { sim_die(O_MEM, 0, "mem:stack-smashing detected"); }
static void vlogmsg(const char *fmt, va_list ap, bool e, int en) { char b[1024]; b[0] = 0; if (fmt) vsnprintf(b, sizeof b, fmt, ap); sim_log += "prog: "; sim_log += b; if (e) { sim_log += ": "; sim_log += strerror(en); } sim_log += "\n"; }
void sim_verr(int c, const char *f, va_list ap) { vlogmsg(f, ap, true, errno); sim_exit(c); }
void sim_verrx(int c, const char *f, va_list ap) { vlogmsg(f, ap, false, 0); sim_exit(c); }
void sim_err(int c, const char *f, ...) { va_list ap; va_start(ap, f); vlogmsg(f, ap, true, errno); va_end(ap); sim_exit(c); }
void sim_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); vlogmsg(f, ap, false, 0); va_end(ap); sim_exit(c); }
void sim_error(int c, int e, const char *f, ...) { va_list ap; va_start(ap, f); vlogmsg(f, ap, e != 0, e); va_end(ap); if (c) sim_exit(c); }
void sim_errc(int c, int e, const char *f, ...) { va_list ap; va_start(ap, f); vlogmsg(f, ap, true, e); va_end(ap); sim_exit(c); }
void sim_warn(const char *f, ...) { va_list ap; va_start(ap, f); vlogmsg(f, ap, true, errno); va_end(ap); }
void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); vlogmsg(f, ap, false, 0); va_end(ap); }
void sim_perror(const char *s) { sim_log += s; sim_log += ": "; sim_log += strerror(errno); sim_log += "\n"; }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
int sim_vprintf(const char *f, va_list ap) { return vfprintf(sim_stdout, f, ap); }
int sim_puts(const char *s) { int r = fputs(s, sim_stdout); if (r >= 0) r = fputc('\n', sim_stdout); return r; }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_getchar() { return fgetc(sim_stdin); }
char *sim_fgets(char *b, int n, FILE *f) { char *r = fgets(b, n, f); if (in_sut) { if (r) range((u64) b, strlen(b) + 1, true); else tick(G.synccost); } return r; }
static void scan_check(const char *f, va_list ap0) { // destinations of scanf-family conversions must be live
	va_list ap; va_copy(ap, ap0);
	for (; *f; f++) { if (*f != '%') continue; f++; if (*f == '%') continue; bool star = false; if (*f == '*') { star = true; f++; }
		int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0'); int l = 0; while (*f == 'l' || *f == 'h' || *f == 'j' || *f == 'z' || *f == 't') { l += *f == 'l' ? 1 : *f == 'h' ? -1 : 2; f++; }
		if (!*f) break; if (star) continue; void *p = va_arg(ap, void *); int sz = 1;
		switch (*f) { case 'd': case 'i': case 'u': case 'x': case 'o': case 'X': sz = l >= 1 ? 8 : l == 0 ? 4 : l == -1 ? 2 : 1; break; case 'f': case 'g': case 'e': sz = l ? 8 : 4; break; case 'c': sz = w ? w : 1; break; default: sz = 1; }
		check_range((u64) p, sz, true); if (*f == '[') { while (*f && *f != ']') f++; if (!*f) break; } }
	va_end(ap); tick(G.hotcost); }
static int do_fscanf(FILE *fp, const char *f, va_list ap) { if (in_sut) scan_check(f, ap); return vfscanf(fp, f, ap); }
#define SCAN(nm) int sim_##nm(FILE *fp, const char *f, ...) { va_list ap; va_start(ap, f); int r = do_fscanf(fp, f, ap); va_end(ap); return r; }
SCAN(fscanf) SCAN(__isoc99_fscanf) SCAN(__isoc23_fscanf)
#define SCAN1(nm) int sim_##nm(const char *f, ...) { va_list ap; va_start(ap, f); int r = do_fscanf(sim_stdin, f, ap); va_end(ap); return r; }
SCAN1(scanf) SCAN1(__isoc99_scanf) SCAN1(__isoc23_scanf)
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (in_sut) range((u64) b, s * n, false); return fwrite(b, s, n, f); }
size_t sim_fread(void *b, size_t s, size_t n, FILE *f) { if (in_sut) range((u64) b, s * n, true); return fread(b, s, n, f); }

// ------------------------------------------------------------------ libgomp ABI
struct Mutex { int holder = -1; };
static std::map<const void *, Mutex> *mtx;
static void lock(const void *k) {
	fib[G.cur].spins = 0;
	tick(G.synccost);
	for (;;) { Mutex &m = (*mtx)[k]; if (m.holder < 0) { m.holder = G.cur; return; } probe(PR_CONTEND); block_on(k); }
}
static void unlock(const void *k) { Mutex &m = (*mtx)[k]; m.holder = -1; wake(k); tick(G.synccost); }
static char crit_default, atomic_default;
void GOMP_critical_start() { lock(&crit_default); }
void GOMP_critical_end() { unlock(&crit_default); }
void GOMP_critical_name_start(void **p) { lock(p); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomic_default); }
void GOMP_atomic_end() { unlock(&atomic_default); }

static void team_barrier() {
	tick(G.synccost);
	Team *t = fib[G.cur].team;
	if (!t || t->n == 1) return;
	u64 gen = t->bar_gen;
	if (++t->bar_in == t->n) { t->bar_in = 0; t->bar_gen++; wake(&t->bar_gen); }
	else while (t->bar_gen == gen) block_on(&t->bar_gen);
}
static void run_team(void (*fn)(void *), void *data, unsigned nthreads, const WS *pre) {
	Fiber &me0 = fib[G.cur];
	int self = G.cur;
	int n = nthreads ? std::min<int>(nthreads, 80) : (me0.nthreads_var ? me0.nthreads_var : G.T);
	if (me0.team && me0.level >= 1) n = 1;   // nested parallelism is inactive by default
	if (n > 1) { int freeslots = 0; for (int i = 0; i < NSLOT; i++) freeslots += fib[i].st == F_FREE; n = std::min(n, 1 + freeslots); }
	Team *t = new Team; t->n = n; t->alive = n - 1; t->caller = self;
	if (pre) { WS *w = new WS(*pre); t->ws.push_back(w); }
	Team *old = me0.team; int otid = me0.tid, owsi = me0.wsi, olev = me0.level;
	if (n > 1) probe(PR_PARALLEL);
	for (int i = 1; i < n; i++) {
		int s = new_slot(); Fiber &f = fib[s]; f = Fiber();
		f.st = F_RUN; f.fn = fn; f.data = data; f.team = t; f.tid = i; f.wsi = pre ? 0 : -1; f.caller = me0.caller; f.level = olev + 1;
		f.prio = 1000 + (int) (G.replay ? 0 : G.srng.below(1000));
		fiber_setup(s); G.nlive++;
	}
	set_next_check();
	me0.team = t; me0.tid = 0; me0.wsi = pre ? 0 : -1; me0.level = olev + 1;
	tick(G.synccost);
	fn(data);
	tick(G.synccost);
	while (t->alive > 0) block_on(t);
	Fiber &me = fib[self];
	me.team = old; me.tid = otid; me.wsi = owsi; me.level = olev;
	for (WS *w : t->ws) delete w; delete t;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { run_team(fn, data, nt, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) { run_team(fn, data, nt, nullptr); return 1; }
void GOMP_barrier() { team_barrier(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_barrier_cancel() { team_barrier(); return false; }

static WS *solo_ws[NSLOT]; // used outside of any parallel region
static WS *ws_new() {   // next work-sharing construct of the current thread
	Fiber &f = fib[G.cur]; tick(G.synccost);
	if (!f.team) { delete solo_ws[G.cur]; return solo_ws[G.cur] = new WS; }
	Fiber &g = fib[G.cur]; g.wsi++;
	while ((int) g.team->ws.size() <= g.wsi) g.team->ws.push_back(new WS);
	return g.team->ws[g.wsi];
}
static WS *ws_cur() { Fiber &f = fib[G.cur]; if (!f.team) return solo_ws[G.cur]; return f.team->ws[f.wsi]; }
static void ws_init(WS *w, i64 s, i64 e, i64 inc, i64 ch, int kind) {
	if (w->init) return; w->init = true; w->next = s; w->incr = inc; w->chunk = ch < 1 ? 1 : ch; w->kind = kind;
	w->end = (inc > 0 && s > e) || (inc < 0 && s < e) ? s : e;
}
static i64 perturb(i64 chunk, i64 remaining) {
	i64 c = chunk;
	switch (G.chunkmode) {
	case 1: c = 1; break;
	case 2: c = 1 + (i64) G.crng.below(std::min<i64>(std::max<i64>(chunk, 2), 4)); break;
	case 3: c = 1 + (i64) G.crng.below(std::max<i64>(1, remaining / 3)); break;
	}
	if (c != chunk) probe(PR_LOOPCHUNK);
	return std::min(c, remaining);
}
static bool ws_next(long *is, long *ie) {
	tick(G.synccost);
	WS *w = ws_cur(); Team *t = fib[G.cur].team; int n = t ? t->n : 1;
	i64 rem = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end + (-w->incr) - 1) / (-w->incr);
	if (rem <= 0) return false;
	i64 c;
	if (w->kind == 1) { c = std::max<i64>((rem + n - 1) / n, w->chunk); c = perturb(std::min(c, rem), rem); }
	else if (w->kind == 2) c = std::min(w->chunk, rem);
	else c = perturb(w->chunk, rem);
	*is = w->next; w->next += c * w->incr; *ie = w->next; 
	if ((w->incr > 0 && *ie > w->end) || (w->incr < 0 && *ie < w->end)) *ie = w->end;
	return true;
}
#define LOOPS(name, kind) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long ch, long *is, long *ie) { ws_init(ws_new(), s, e, inc, ch, kind); return ws_next(is, ie); } \
bool GOMP_loop_##name##_next(long *is, long *ie) { return ws_next(is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, long ch, unsigned) { WS w; ws_init(&w, s, e, inc, ch, kind); run_team(fn, d, nt, &w); }
LOOPS(dynamic, 0) LOOPS(guided, 1) LOOPS(nonmonotonic_dynamic, 0) LOOPS(nonmonotonic_guided, 1)
bool GOMP_loop_static_start(long s, long e, long inc, long ch, long *is, long *ie) { Team *t = fib[G.cur].team; int n = t ? t->n : 1; long tot = inc > 0 ? (e - s + inc - 1) / inc : (s - e - inc - 1) / -inc; ws_init(ws_new(), s, e, inc, ch ? ch : std::max<long>(1, (tot + n - 1) / n), 2); return ws_next(is, ie); }
bool GOMP_loop_static_next(long *is, long *ie) { return ws_next(is, ie); }
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long *is, long *ie) { ws_init(ws_new(), s, e, inc, 1, 0); return ws_next(is, ie); } \
bool GOMP_loop_##name##_next(long *is, long *ie) { return ws_next(is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long inc, unsigned) { WS w; ws_init(&w, s, e, inc, 1, 0); run_team(fn, d, nt, &w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
static bool ull_start(bool up, u64 s, u64 e, u64 inc, u64 ch, u64 *is, u64 *ie, int kind) { (void) up; ws_init(ws_new(), (i64) s, (i64) e, (i64) inc, (i64) ch, kind); return ws_next((long *) is, (long *) ie); }
#define LOOPU(name, kind) \
bool GOMP_loop_ull_##name##_start(bool up, u64 s, u64 e, u64 inc, u64 ch, u64 *is, u64 *ie) { return ull_start(up, s, e, inc, ch, is, ie, kind); } \
bool GOMP_loop_ull_##name##_next(u64 *is, u64 *ie) { return ws_next((long *) is, (long *) ie); }
LOOPU(dynamic, 0) LOOPU(guided, 1) LOOPU(nonmonotonic_dynamic, 0) LOOPU(nonmonotonic_guided, 1) LOOPU(static, 2)
void GOMP_loop_end() { team_barrier(); }
void GOMP_loop_end_nowait() { tick(G.synccost); }
bool GOMP_loop_end_cancel() { team_barrier(); return false; }
// ordered loops: chunks are queued in the order they were handed out; a chunk's owner may enter the ordered
// block only when every earlier chunk is finished
static void ord_wait(WS *w) { while (w->ordh < w->ord.size() && w->ord[w->ordh] != G.cur) block_on(&w->ordh); }
static void ord_pop(WS *w) { ord_wait(w); if (w->ordh < w->ord.size()) { w->ordh++; wake(&w->ordh); } }
static bool ord_next(long *is, long *ie, bool first) { WS *w = ws_cur(); if (!first) ord_pop(w); bool r = ws_next(is, ie); if (r) w->ord.push_back(G.cur); return r; }
void GOMP_ordered_start() { tick(G.synccost); Fiber &f = fib[G.cur]; if (!f.team || f.wsi < 0) return; ord_wait(ws_cur()); }
void GOMP_ordered_end() { tick(G.synccost); }
#define LOOPO(name, kind) \
bool GOMP_loop_ordered_##name##_start(long s, long e, long inc, long ch, long *is, long *ie) { ws_init(ws_new(), s, e, inc, ch, kind); return ord_next(is, ie, true); } \
bool GOMP_loop_ordered_##name##_next(long *is, long *ie) { return ord_next(is, ie, false); } \
bool GOMP_loop_ull_ordered_##name##_start(bool, u64 s, u64 e, u64 inc, u64 ch, u64 *is, u64 *ie) { ws_init(ws_new(), (i64) s, (i64) e, (i64) inc, (i64) ch, kind); return ord_next((long *) is, (long *) ie, true); } \
bool GOMP_loop_ull_ordered_##name##_next(u64 *is, u64 *ie) { return ord_next((long *) is, (long *) ie, false); }
LOOPO(dynamic, 0) LOOPO(guided, 1) LOOPO(static, 0)
bool GOMP_loop_ordered_runtime_start(long s, long e, long inc, long *is, long *ie) { ws_init(ws_new(), s, e, inc, 1, 0); return ord_next(is, ie, true); }
bool GOMP_loop_ordered_runtime_next(long *is, long *ie) { return ord_next(is, ie, false); }
bool GOMP_loop_start(long s, long e, long inc, long sched, long ch, long *is, long *ie, u64 *, void **mem) { (void) sched; if (mem) { static char m[4096]; *mem = m; } ws_init(ws_new(), s, e, inc, ch, 0); if (!is) return true; return ws_next(is, ie); }
bool GOMP_loop_ordered_start(long s, long e, long inc, long sched, long ch, long *is, long *ie, u64 *, void **mem) { (void) sched; if (mem) { static char m[4096]; *mem = m; } ws_init(ws_new(), s, e, inc, ch, 0); if (!is) return true; return ord_next(is, ie, true); }
void GOMP_teams_reg(void (*fn)(void *), void *data, unsigned, unsigned, unsigned) { fn(data); }
void GOMP_teams(unsigned, unsigned) {}
void GOMP_taskgroup_reduction_register(u64 *) {} void GOMP_taskgroup_reduction_unregister(u64 *) {} void GOMP_workshare_task_reduction_unregister(bool) { team_barrier(); }
// POSIX mutexes, condition variables and spin locks, should the code come to use them
int sim_pthread_mutex_init(void *m, const void *) { (*mtx)[m] = Mutex(); return 0; } int sim_pthread_mutex_destroy(void *m) { mtx->erase(m); return 0; }
int sim_pthread_mutex_lock(void *m) { lock(m); return 0; } int sim_pthread_mutex_unlock(void *m) { unlock(m); return 0; }
int sim_pthread_mutex_trylock(void *m) { tick(G.synccost); Mutex &x = (*mtx)[m]; if (x.holder >= 0) return EBUSY; x.holder = G.cur; return 0; }
int sim_pthread_spin_init(void *m, int) { (*mtx)[m] = Mutex(); return 0; } int sim_pthread_spin_destroy(void *m) { mtx->erase(m); return 0; }
int sim_pthread_spin_lock(void *m) { lock(m); return 0; } int sim_pthread_spin_unlock(void *m) { unlock(m); return 0; } int sim_pthread_spin_trylock(void *m) { return sim_pthread_mutex_trylock(m); }
int sim_pthread_rwlock_init(void *m, const void *) { return 0; } int sim_pthread_rwlock_destroy(void *) { return 0; }
int sim_pthread_rwlock_rdlock(void *m) { lock(m); return 0; } int sim_pthread_rwlock_wrlock(void *m) { lock(m); return 0; } int sim_pthread_rwlock_unlock(void *m) { unlock(m); return 0; }
int sim_pthread_cond_init(void *, const void *) { return 0; } int sim_pthread_cond_destroy(void *) { return 0; }
int sim_pthread_cond_wait(void *c, void *m) { Mutex &x = (*mtx)[m]; x.holder = -1; wake(m); block_on(c); lock(m); return 0; }
int sim_pthread_cond_signal(void *c) { wake(c); tick(G.synccost); return 0; } int sim_pthread_cond_broadcast(void *c) { wake(c); tick(G.synccost); return 0; }
int sim_pthread_once(int *o, void (*f)()) { lock(o); if (*o != 2) { *o = 2; f(); } unlock(o); return 0; }
bool GOMP_single_start() { WS *w = ws_new(); if (w->single) return false; w->single = true; return true; }
void *GOMP_single_copy_start() { WS *w = ws_new(); if (!w->single) { w->single = true; return nullptr; } team_barrier(); return fib[G.cur].team ? ws_cur()->copy : nullptr; }
void GOMP_single_copy_end(void *d) { ws_cur()->copy = d; team_barrier(); }
unsigned GOMP_sections_next() { tick(G.synccost); WS *w = ws_cur(); return w->snext <= w->sections ? w->snext++ : 0; }
unsigned GOMP_sections_start(unsigned c) { WS *w = ws_new(); if (!w->init) { w->init = true; w->sections = c; w->snext = 1; } return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned c, unsigned) { WS w; w.init = true; w.sections = c; w.snext = 1; run_team(fn, d, nt, &w); }
void GOMP_sections_end() { team_barrier(); }
void GOMP_sections_end_nowait() { tick(G.synccost); }
void GOMP_scope_start(u64 *) { tick(G.synccost); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *) {
	tick(G.synccost); (void) al;
	if (cpy || sz > 0) { std::vector<u8> buf(sz + 64); void *p = (void *) (((u64) buf.data() + 63) & ~63ull); if (cpy) cpy(p, data); else memcpy(p, data, sz); fn(p); }
	else fn(data);
}
void GOMP_taskwait() { tick(G.synccost); }
void GOMP_taskyield() { tick(G.synccost); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long, unsigned, unsigned long, int, long s, long e, long) {
	std::vector<u8> buf(sz + 64); void *p = (void *) (((u64) buf.data() + 63) & ~63ull); if (cpy) cpy(p, data); else memcpy(p, data, sz); ((long *) p)[0] = s; ((long *) p)[1] = e; fn(p); }

int omp_get_thread_num() { return fib[G.cur].team ? fib[G.cur].tid : 0; }
int omp_get_num_threads() { return fib[G.cur].team ? fib[G.cur].team->n : 1; }
int omp_get_max_threads() { return fib[G.cur].nthreads_var ? fib[G.cur].nthreads_var : G.T; }
int omp_get_num_procs() { return G.T; }
void omp_set_num_threads(int n) { fib[G.cur].nthreads_var = n; }
int omp_in_parallel() { return fib[G.cur].team && fib[G.cur].team->n > 1; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {} int omp_get_max_active_levels() { return 1; }
int omp_get_level() { return fib[G.cur].level; } int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_team_size(int) { return omp_get_num_threads(); } int omp_get_ancestor_thread_num(int) { return omp_get_thread_num(); }
int omp_get_thread_limit() { return 16; } void omp_set_schedule(int, int) {} void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
int omp_get_cancellation() { return 0; } int omp_get_num_teams() { return 1; } int omp_get_team_num() { return 0; }
double omp_get_wtime() { return clock_read() * 1e-9; } double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *l) { (*mtx)[l] = Mutex(); } void omp_destroy_lock(void *l) { mtx->erase(l); }
void omp_set_lock(void *l) { lock(l); } void omp_unset_lock(void *l) { unlock(l); }
int omp_test_lock(void *l) { tick(G.synccost); Mutex &m = (*mtx)[l]; if (m.holder >= 0) return 0; m.holder = G.cur; return 1; }
void omp_init_lock_with_hint(void *l, int) { omp_init_lock(l); }
struct Nest { int holder = -1, n = 0; }; static std::map<void *, Nest> nests;
void omp_init_nest_lock(void *l) { nests[l] = Nest(); } void omp_destroy_nest_lock(void *l) { nests.erase(l); }
void omp_set_nest_lock(void *l) { tick(G.synccost); for (;;) { Nest &m = nests[l]; if (m.n == 0 || m.holder == G.cur) { m.holder = G.cur; m.n++; return; } block_on(l); } }
void omp_unset_nest_lock(void *l) { Nest &m = nests[l]; if (--m.n == 0) { m.holder = -1; wake(l); } tick(G.synccost); }
int omp_test_nest_lock(void *l) { tick(G.synccost); Nest &m = nests[l]; if (m.n && m.holder != G.cur) return 0; m.holder = G.cur; return ++m.n; }
} // extern "C"

// ------------------------------------------------------------------ process setup
static int tls_cb(struct dl_phdr_info *info, size_t, void *) {
	if (info->dlpi_name && info->dlpi_name[0]) return 0;
	for (int i = 0; i < info->dlpi_phnum; i++) if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data) {
		tls_base = (u8 *) info->dlpi_tls_data; tls_size = info->dlpi_phdr[i].p_memsz; }
	return 1;
}
static void on_signal(int s, siginfo_t *, void *) {
	const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT" : s == SIGXCPU ? "CPU-limit" : "signal";
	if (in_sut) {
		in_sut = false;
		snprintf(RES->cls, sizeof RES->cls, "%s", s == SIGXCPU ? "hang:cpu" : (std::string("crash:") + n).c_str());
		size_t k = sim_log.size() > 300 ? sim_log.size() - 300 : 0;
		snprintf(RES->msg, sizeof RES->msg, "code under test received %s (invalid access, arithmetic fault, or endless loop); last log: %s", n, sim_log.c_str() + k);
		finish_result(exhausted ? 4 : 2);
	} else if ((s == SIGSEGV || s == SIGBUS) && sut_calls) {       // reading what the code handed over (a NULL or wild pointer in a result)
		snprintf(RES->cls, sizeof RES->cls, "unreadable-result"); size_t k = sim_log.size() > 300 ? sim_log.size() - 300 : 0; snprintf(RES->msg, sizeof RES->msg, "reading the results handed over by the code under test: %s (NULL or wild pointer); last log: %s", n, sim_log.c_str() + k); finish_result(exhausted ? 4 : 2);
	} else { snprintf(RES->cls, sizeof RES->cls, "harness"); snprintf(RES->msg, sizeof RES->msg, "harness received %s", n); finish_result(3); }
	_exit(0);
}
static void sections_save();
void sim_init() {
	void *p = mmap((void *) ARENA, TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *) ARENA) { fprintf(stderr, "cannot map arena\n"); exit(3); }
	for (int i = 0; i < NSLOT; i++) mprotect((void *) (ARENA + HEAPSZ + (u64) i * STKSZ), 4096, PROT_NONE);
	bshadow = (u8 *) mmap(nullptr, HEAPSZ >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	owner = (u8 *) mmap(nullptr, TOTAL >> 3, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	madvise(bshadow, HEAPSZ >> 3, MADV_NOHUGEPAGE); madvise(owner, TOTAL >> 3, MADV_NOHUGEPAGE); madvise((void *) ARENA, TOTAL, MADV_NOHUGEPAGE);
	blocks = new std::vector<Block>; mtx = new std::map<const void *, Mutex>; pool = new std::map<u64, std::vector<u32>>; tls_kept = new std::map<u64, std::vector<u8>>; stale = new std::map<u64, std::vector<std::string>>;
	dl_iterate_phdr(tls_cb, nullptr); sections_save();
	if (tls_size) tls_init.assign(tls_base, tls_base + tls_size);
}
static void on_real_exit(int code, void *) { if (in_sut) { sim_log += "prog: libc called exit\n"; sim_die(O_EXIT, code, ""); } }   // exit() called from inside libc (argp, getopt)
static void run_params(const Spec &s) {
	u64 seed = s.seed;
	G.ev = 0; { i64 size = 0; for (auto &m : s.mats) size += (i64) m.second.n * m.second.m; G.cap = (u64) s.get("cap", 60000000 + 10000 * size); } G.fair = (u64) s.get("fair", 20000); G.last_switch = 0;
	G.policy = (int) s.get("pol", 0); G.mean = (double) s.get("mean", 2000); G.hotcost = (int) s.get("hot", 40); G.synccost = (int) s.get("sync", 150);
	G.stall_ev = (u64) s.get("stall", 30000); G.burst = (u64) s.get("burst"); G.burst_spins = (int) s.get("burstat", 8); G.burst_until = 0; G.bursts = 0;
	G.srng = Rng(seed ^ 0x5C4ED ^ (u64) s.get("schedsalt", 0) * 0x9E37); G.crng = Rng(seed ^ 0xC4A11); G.rrng = Rng(seed ^ 0x7A4D); G.krng = Rng(seed ^ 0xC10C);
	G.prio_low = 0; G.replay = s.replay; G.swi = 0; G.sw = &s.sw;
	G.T = s.T; G.now_ns = 0; G.allocs = 0; if (!arules) arules = new std::vector<AllocRule>; arules->clear(); refused_in_a_row = 0; G.alloc_base = 0;
	G.junk = (int) s.get("junk", 2); G.junkseed = seed ^ 0x1234;
	G.chunkmode = (int) s.get("chunkmode", 0); G.randmode = (int) s.get("randmode", 0); G.randconst = (int) s.get("randconst", 0); G.rand_calls = 0;
	exit_handlers->clear(); G.tlskeep = s.get("tlskeep") || s.get("reps"); G.reuse = s.get("reuse"); G.clockmode = (int) s.get("clockmode", 0); G.nlive = 0; G.schedhash = 0; G.clock_calls = 0;
	G.cd = INT64_MAX / 2; G.next_check = G.cap; G.cur = 0;
	RES->nsw = 0; sim_log.clear(); sim_crashed = false; in_sut = false; sut_calls = 0; fs_reset();
}
void sim_begin(const Spec &s) {
	static bool once = false; if (!once) { once = true; on_exit(on_real_exit, nullptr); }
	static u8 altstack[65536];
	stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	for (int g : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(g, &sa, nullptr);
	struct rlimit rl = {120, 140}; setrlimit(RLIMIT_CPU, &rl);
	if (heap_top) { memset(bshadow, 0, (heap_top >> 3) + 64); memset(owner, 0, (heap_top >> 3) + 64); }
	blocks->clear(); stale->clear(); heap_top = 64; live_bytes = 0; exhausted = false; mtx->clear(); pool->clear(); G.hash = 0;
	run_params(s); sim_new_process();
}
// the next operation in the same simulated process: program data and thread-local data persist; the caller released what it had allocated itself
void sim_continue(const Spec &s) {
	run_params(s);
	for (size_t i = 0; i < blocks->size(); i++) if ((*blocks)[i].live && (*blocks)[i].ours) release((void *) (*blocks)[i].addr, "free");
}
bool sim_last_ok() { return outcome.ok(); }
void sim_live(u64 &count, u64 &bytes) { count = bytes = 0; for (auto &b : *blocks) if (b.live && !b.ours) { count++; bytes += b.size + 16; } }
std::string sim_live_list(size_t from) { std::string s; for (size_t i = from; i < blocks->size(); i++) { auto &b = (*blocks)[i]; if (b.live && !b.ours) s += " #" + std::to_string(i) + ":" + std::to_string(b.size); } return s; }
size_t sim_block_count() { return blocks->size(); }
bool sim_heap_intact(std::string &why) {
	for (size_t i = 0; i < blocks->size(); i++) if ((*blocks)[i].live && !block_canary((*blocks)[i])) { why = "mem:overflow: bytes around block #" + std::to_string(i) + " (size " + std::to_string((*blocks)[i].size) + ") overwritten"; return false; }
	return true;
}
#define SEC(n) extern "C" char __start_##n[] __attribute__((weak)), __stop_##n[] __attribute__((weak));
SEC(sutdata) SEC(sutdata2) SEC(sutdata3) SEC(sutbss)
static std::vector<std::pair<char *, std::string>> *sections;
static void sections_save() { sections = new std::vector<std::pair<char *, std::string>>; 
	char *v[][2] = {{__start_sutdata, __stop_sutdata}, {__start_sutdata2, __stop_sutdata2}, {__start_sutdata3, __stop_sutdata3}, {__start_sutbss, __stop_sutbss}};
	for (auto &x : v) if (x[0] && x[1] > x[0]) sections->push_back({x[0], std::string(x[0], x[1] - x[0])}); }
extern "C" int optind, opterr;
void fs_new_process();
void sim_new_process() { tls_kept->clear(); exit_handlers->clear(); for (auto &x : *sections) memcpy(x.first, x.second.data(), x.second.size()); optind = 0; opterr = 0; fs_new_process(); }
struct ToolEnt { const char *name; int (*fn)(int, char **); };
extern const ToolEnt tool_table[];
Outcome sut_main(const char *tool, const std::vector<std::string> &args) {
	const ToolEnt *t = nullptr; for (int i = 0; tool_table[i].name; i++) if (!strcmp(tool_table[i].name, tool)) t = &tool_table[i];
	if (!t) harness_error(std::string("no such program: ") + tool);
	sim_new_process();
	std::vector<std::string> *a = new std::vector<std::string>{tool}; for (auto &x : args) a->push_back(x);
	char **av = (char **) calloc(a->size() + 1, sizeof *av); for (size_t i = 0; i < a->size(); i++) av[i] = (char *) (*a)[i].c_str();
	fs_std("<stdin>", "<stdout>");
	return sut([&] { int r = t->fn((int) a->size(), av); sim_exit(r & 0xff); });
}
void note_outcome(const char *s) { snprintf(RES->outcome, sizeof RES->outcome, "%s", s); note_hash(s, strlen(s)); }
void sim_end() { std::string w; if (!sim_heap_intact(w)) violation("mem:overflow", w); }
void set_threads(int T) { G.T = T; }
void set_alloc_fault(i64 first, i64 count) { if (first < 0) { arules->clear(); return; } if (arules->empty()) G.alloc_base = G.allocs; arules->push_back({first, count, -1, -1}); }
void set_alloc_limit(i64 size, i64 live) { arules->push_back({-1, 0, size, live < 0 ? -1 : (i64) live_bytes + live}); }
u64 alloc_count() { return G.allocs; }
bool heap_ptr_live(const void *p, size_t n) {
	u64 a = (u64) p; if (a - ARENA >= HEAPSZ) return false;
	for (u64 i = 0; i < n; i++) { u64 off = a + i - ARENA; u8 s = bshadow[off >> 3]; if (s == 8) continue; if (s >= 1 && s < 8 && (off & 7) < s) continue; return false; }
	return true;
}
