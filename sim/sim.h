// Deterministic simulator: API shared by the simulator core, the harness and the driver.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8;

// ---------- PRNG: everything is drawn from streams derived from one seed ----------
static inline u64 mix64(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Rng {
	u64 s;
	explicit Rng(u64 seed = 0) : s(mix64(seed ^ 0xA5A5A5A55A5A5A5Aull)) {}
	u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64) below((u64)(b - a + 1)); }
	bool chance(int num, int den) { return (int) below(den) < num; }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ---------- run specification: one explicit, serialisable description of a run ----------
struct Entry { int i, j; i64 x; };
struct Mat { int n = 0, m = 0; std::vector<Entry> e; };
struct Fault { std::string kind; i64 a = 0, b = 0, c = 0; };
struct Switch { u64 ev; int to; };
struct Spec {
	std::string prop, scen;
	u64 seed = 0;                       // schedule / junk / rand streams derive from it
	i64 prime = 42013;
	int T = 1;
	std::map<std::string, i64> k;       // named integer parameters
	std::map<std::string, Mat> mats;
	std::vector<Fault> faults;
	bool replay = false;                // use 'sw' instead of the seeded scheduler
	std::vector<Switch> sw;
	i64 get(const char *name, i64 dflt = 0) const { auto it = k.find(name); return it == k.end() ? dflt : it->second; }
	void set(const char *name, i64 v) { k[name] = v; }
	std::string dump() const;
	static bool parse(const std::string &text, Spec &out);
};

// ---------- result of a run, in memory shared with the parent ----------
enum Probe {
	PR_PARALLEL, PR_CONTEND, PR_PREEMPT, PR_FORCED_ROT, PR_STALL, PR_LOOPCHUNK, PR_REALLOC_MOVE, PR_REALLOC_WHILE_PAR,
	PR_ALLOC_FAIL, PR_SHORT_READ, PR_READ_EIO, PR_EARLY_EOF, PR_BYTE_FLIP, PR_SHORT_WRITE, PR_WRITE_ENOSPC, PR_WRITE_EIO,
	PR_CRASH, PR_LOST_WRITE, PR_TORN, PR_CLOCK_JUMP, PR_RAND_DEGEN, PR_CERT_MUT, PR_JUNK_MEM, PR_OPEN_FAIL, PR_CLOSE_FAIL,
	PR_HOT_ACCESS, PR_SPIN, PR_WRITE_ONCE, PR_READ_ONCE, PR_ALLOC_LIMIT, PR_BURST,
	// reach probes (conditions of the code under test that are worth reaching)
	PR_R_MULTIROUND, PR_R_GPLU, PR_R_DENSE, PR_R_LOWRANK, PR_R_LOWRANK_SWITCH, PR_R_COMPLETION, PR_R_FULLRANK, PR_R_EMPTY,
	PR_R_CYCLEFREE, PR_R_GROW, PR_R_L, PR_R_COMPLETE, PR_R_UNSOLVABLE, PR_R_RANK0, PR_R_BIGPRIME, PR_R_DUP,
	PR_R_MM, PR_R_SMS, PR_R_ACCEPT, PR_R_REJECT, PR_R_FAILSTOP, PR_R_CORRECT_UNDER_FAULT, PR_R_MULTICALLER, PR_R_TWO_WRITERS, PR_HISTORY,
	PR_MAX
};
extern const char *probe_names[PR_MAX];
#define MAXSW 400000
struct Result {
	u64 heap, cpu_us;          // bytes ever allocated, processor time
	int status;                // 0 = nothing recorded, 1 = ok, 2 = violation, 3 = harness error, 4 = trivial (ok but vacuous)
	char cls[96];              // violation class (stable across minimisation)
	char msg[1600];
	u64 hash;                  // hash of the event/decision log and of the observed outcome
	u64 schedhash;             // hash of the sequence of switches only
	u64 events, switches, simtime_ns, allocs;
	u64 probe[PR_MAX];
	u64 nontrivial;
	char scen[32], outcome[32];
	u32 nsw;
	Switch sw[MAXSW];
};
extern Result *RES;            // this run's result

// ---------- simulator control (called by the harness) ----------
enum OutKind { O_RETURNED, O_EXIT, O_ABORT, O_MEM, O_HANG, O_DEADLOCK };
struct Outcome { OutKind kind; int code; std::string msg; bool ok() const { return kind == O_RETURNED; }
	bool failstop() const { return (kind == O_EXIT && code != 0) || kind == O_ABORT; }
	std::string str() const; };
void sim_init();                               // once per process (maps the arena)
void sim_begin(const Spec &s);                 // once per run
void sim_continue(const Spec &s);              // further operation of the same simulated process
struct HistoryDone {}; extern int history_phase; extern void (*sim_on_done)();
bool sim_last_ok();                            // the last simulated call returned
void sim_live(u64 &count, u64 &bytes);         // memory still held by the code under test
std::string sim_live_list(size_t from); size_t sim_block_count();
Outcome sut(const std::function<void()> &f);   // run code under test as one simulated process
Outcome sut_multi(const std::vector<std::function<void()>> &f);  // several caller threads
Outcome sut_main(const char *tool, const std::vector<std::string> &args);
void sim_new_process();                          // program data back to its initial state, streams closed, optind reset
void sim_end();                                // final canary sweep etc.
bool sim_heap_intact(std::string &why);
void probe(int p, u64 n = 1);
void note_outcome(const char *s);   // short label, aggregated in the evidence
void note_hash(u64 x);
void note_hash(const void *p, size_t n);
[[noreturn]] void violation(const std::string &cls, const std::string &msg);
[[noreturn]] void harness_error(const std::string &msg);
[[noreturn]] void run_done(bool nontrivial);
extern std::string sim_log;                    // captured standard error (bounded)
bool log_has(const char *s);
void set_threads(int T);
void set_alloc_fault(i64 first, i64 count);    // one more window; first < 0 removes all rules
void set_alloc_limit(i64 size, i64 live);      // fail requests of at least `size` bytes, or beyond `live` more live bytes
//     // fail allocations [first, first+count) counted from now; first<0: off
u64 alloc_count();                             // allocations since sim_begin
bool heap_ptr_live(const void *p, size_t n);   // n bytes at p inside one live block
extern bool sim_mm_checks;

// ---------- simulated file system / streams ----------
struct SimFile { std::vector<u8> data; bool exists = false; i64 rep_at = -1, rep_count = 0; std::string rep; };   // reading: rep_count copies of rep at offset rep_at
struct StreamPolicy {                           // how a stream behaves
	int bufsize = 4096; u64 chunkseed = 0; int chunkmode = 0; // 0 full, 1 one byte, 2 random small, 3 random
	i64 eio_at = -1;        // byte offset at which reading/writing fails with EIO
	i64 eof_at = -1;        // reading: premature end of file
	i64 nospc_at = -1;      // writing: ENOSPC once this many bytes are on disk
	i64 crash_at = -1;      // writing: process crashes when this many bytes reached the disk
	std::vector<std::pair<i64, u8>> flips;      // (offset, xor mask) applied to bytes read
	int err_after_calls = -1;  // fail the k-th write request and all later ones
	int err_once = -1;         // fail only the k-th write request
	i64 eio_once = -1;         // reading: fail once at this offset, then go on
	int err = 0;               // errno of the failure (0: EIO)
};
void fs_reset();
void fs_repeat(const std::string &name, i64 at, const std::string &block, i64 count);
void fs_put(const std::string &name, const std::string &content);
bool fs_get(const std::string &name, std::string &content);
void fs_policy(const std::string &name, const StreamPolicy &p);
FILE *fs_open(const std::string &name, const char *mode);
int fs_close(FILE *f);
void fs_flush_all();
void fs_std(const char *in, const char *out);   // (re)create the standard streams on these files
u64 fs_bytes_written(const std::string &name);
u64 fs_write_calls(const std::string &name);
extern "C" { extern FILE *sim_stdin, *sim_stdout, *sim_stderr; }
extern bool sim_crashed;
[[noreturn]] void sim_die(OutKind k, int code, const std::string &msg);   // terminate the simulated process
bool sim_in_sut();
