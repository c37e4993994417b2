// Driver: seeded search over schedules and faults, statistics, violation gating, minimisation, replay files.
#include <sys/personality.h>
#include "harness.h"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <unordered_set>
#include <set>
#include <algorithm>
#include <fstream>
#include <sstream>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct RunOut { int status; std::string cls, msg; u64 hash, schedhash; u64 nontrivial; };
static Result *new_result() { void *p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (Result *) p; }
static double run_wall_limit = 240;
static void harness_alarm(int) { const char m[] = "harness: wall-clock limit reached\n"; (void) !write(2, m, sizeof m - 1); _exit(98); }
static RunOut in_child(const std::function<void()> &f) {
	memset(RES, 0, offsetof(Result, sw));
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		signal(SIGINT, SIG_DFL); signal(SIGTERM, SIG_DFL); signal(SIGALRM, harness_alarm); alarm((unsigned) run_wall_limit);
		f(); _exit(96);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	RunOut o; o.status = RES->status; o.cls = RES->cls; o.msg = RES->msg; o.hash = RES->hash; o.schedhash = RES->schedhash; o.nontrivial = RES->nontrivial;
	if (o.status == 0) { o.status = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? 4 : 3; o.cls = "harness"; o.msg = S("run ended without a result (wait status 0x%x)", st); }   // killed from outside: no verdict
	return o;
}
static bool class_counts(const std::string &prop, const std::string &cls) {   // is this class of failure this property's business?
	const PropDef *pd = find_prop(prop); if (!pd || pd->classes.empty()) return true;
	for (auto c : pd->classes) if (cls.compare(0, strlen(c), c) == 0) return true;
	return false;
}
static RunOut run_seed(const std::string &prop, u64 seed, const char *force_scen) { RunOut o = in_child([&] { Spec s; gen_for(prop, seed, s, force_scen); run_spec(s); }); if (o.status == 2 && !class_counts(prop, o.cls)) o.status = 4; return o; }
static RunOut run_explicit(const Spec &s) { RunOut o = in_child([&] { run_spec(s); }); if (o.status == 2 && !class_counts(s.prop, o.cls)) o.status = 4; return o; }
static u64 seed_of(u64 base, const std::string &prop, u64 i) { u64 h = mix64(base * 0x10001 + 77); for (char c : prop) h = mix64(h ^ (u8) c); return mix64(h ^ (i * 0x9E3779B97F4A7C15ull)) >> 1; }

// ------------------------------------------------------------------ known findings
struct Known { std::string prop, cls, match, what; };
static std::vector<Known> known;
static void load_known(const std::string &f) { // lines: finding: property=<id> class=<cls> match="<substring of the message>" what=<text>
	std::ifstream in(f); std::string l;
	while (std::getline(in, l)) { if (l.compare(0, 8, "finding:")) continue; Known k; auto get = [&](const char *key, bool q) { size_t p = l.find(key); if (p == std::string::npos) return std::string(); p += strlen(key); if (q) { size_t e = l.find('"', p + 1); return l.substr(p + 1, e - p - 1); } size_t e = l.find(' ', p); return l.substr(p, e - p); };
		k.prop = get("property=", false); k.cls = get("class=", false); k.match = get("match=", true); size_t p = l.find("what="); if (p != std::string::npos) k.what = l.substr(p + 5); if (!k.match.empty()) known.push_back(k); }
}
static int known_index(const std::string &prop, const RunOut &o) { for (size_t i = 0; i < known.size(); i++) if (known[i].prop == prop && known[i].cls == o.cls && o.msg.find(known[i].match) != std::string::npos) return i; return -1; }

// ------------------------------------------------------------------ minimisation
static double min_deadline;
static bool still(const Spec &s, const std::string &cls) { if (now() > min_deadline) return false; RunOut o = run_explicit(s); return o.status == 2 && o.cls == cls; }
template <class T> static void ddmin(std::vector<T> cur, const std::function<bool(const std::vector<T> &)> &test, std::vector<T> &out) {
	size_t chunk = std::max<size_t>(1, cur.size() / 2);
	while (!cur.empty() && now() < min_deadline) {
		bool any = false;
		for (size_t i = 0; i < cur.size() && now() < min_deadline;) { std::vector<T> c(cur.begin(), cur.begin() + i); size_t e = std::min(cur.size(), i + chunk); c.insert(c.end(), cur.begin() + e, cur.end()); if (test(c)) { cur = c; any = true; } else i = e; }
		if (chunk == 1 && !any) break; if (!any || chunk > cur.size()) chunk = std::max<size_t>(1, chunk / 2);
	}
	out = cur;
}
static Spec minimise(Spec s, const std::string &cls, double budget) {
	min_deadline = now() + budget * 0.55;
	auto tryset = [&](const std::function<void(Spec &)> &f) { Spec c = s; f(c); if (c.dump() == s.dump()) return; if (still(c, cls)) s = c; };
	tryset([](Spec &c) { c.T = 1; }); tryset([](Spec &c) { c.T = std::min(c.T, 2); }); tryset([](Spec &c) { c.T = std::min(c.T, 3); });
	for (size_t i = s.faults.size(); i-- > 0;) tryset([&](Spec &c) { c.faults.erase(c.faults.begin() + i); });
	for (int pass = 0; pass < 2; pass++) for (auto &name : std::vector<std::string>([&] { std::vector<std::string> v; for (auto &m : s.mats) v.push_back(m.first); return v; }())) {
		std::vector<Entry> out; ddmin<Entry>(s.mats[name].e, [&](const std::vector<Entry> &e) { Spec c = s; c.mats[name].e = e; return still(c, cls); }, out);
		{ Spec c = s; c.mats[name].e = out; if (still(c, cls)) s = c; }
		auto drop_row = [&](int r) { tryset([&](Spec &c) { Mat &M = c.mats[name]; if (r >= M.n) return; std::vector<Entry> e; for (auto x : M.e) { if (x.i == r) continue; if (x.i > r) x.i--; e.push_back(x); } M.e = e; M.n--; }); };
		auto drop_cols = [&](int j) { tryset([&](Spec &c) { for (auto &mm : c.mats) { Mat &M = mm.second; if (mm.first != name && M.m != s.mats[name].m) continue; if (j >= M.m) continue; std::vector<Entry> e; for (auto x : M.e) { if (x.j == j) continue; if (x.j > j) x.j--; e.push_back(x); } M.e = e; M.m--; } }); };
		for (int r = s.mats[name].n - 1; r >= 0 && now() < min_deadline; r--) drop_row(r);
		for (int j = s.mats[name].m - 1; j >= 0 && now() < min_deadline; j--) drop_cols(j);
		for (size_t i = 0; i < s.mats[name].e.size() && i < 60 && now() < min_deadline; i++) tryset([&](Spec &c) { c.mats[name].e[i].x = 1; });
	}
	for (auto &kv : std::map<std::string, i64>(s.k)) if (kv.first != "scale") tryset([&](Spec &c) { c.k.erase(kv.first); });
	// schedule: make the recorded switches explicit and shrink them
	RunOut o = run_explicit(s); if (o.status != 2 || o.cls != cls) return s;
	if (RES->nsw < MAXSW) {
		Spec c = s; c.replay = true; c.sw.assign(RES->sw, RES->sw + RES->nsw);
		min_deadline = now() + std::max(2.0, budget * 0.45);
		if (still(c, cls)) {
			s = c;
			{ Spec d = s; d.sw.clear(); if (still(d, cls)) s = d; }
			std::vector<Switch> out; ddmin<Switch>(s.sw, [&](const std::vector<Switch> &w) { Spec d = s; d.sw = w; return still(d, cls); }, out);
			Spec d = s; d.sw = out; if (out.size() < s.sw.size() && (min_deadline = now() + 5, still(d, cls))) s = d;
		}
	}
	return s;
}
static std::string strip_nl(std::string m) { for (auto &c : m) if (c == '\n' || c == '\r') c = ' '; return m; }
static bool write_replay(const std::string &path, const Spec &s, const RunOut &o) {
	std::ofstream f(path); f << "# simulation replay file: property " << s.prop << ", scenario " << s.scen << ", seed " << s.seed << "\n# expect-class " << o.cls << "\n# expect-hash " << o.hash << "\n# message " << strip_nl(o.msg) << "\n" << s.dump(); f.close(); return (bool) f;
}
static int replay_file(const std::string &path, bool verbose) {
	std::ifstream in(path); if (!in) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
	std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str(); Spec s; if (!Spec::parse(t, s)) { fprintf(stderr, "bad replay file\n"); return 2; }
	std::string cls; u64 hash = 0; size_t p = t.find("# expect-class "); if (p != std::string::npos) cls = t.substr(p + 15, t.find('\n', p) - p - 15); p = t.find("# expect-hash "); if (p != std::string::npos) hash = strtoull(t.c_str() + p + 14, nullptr, 10);
	RunOut o = run_explicit(s);
	if (verbose) printf("replay: status %d class %s hash %llu (expected %s / %llu)\n  %s\n", o.status, o.cls.c_str(), (unsigned long long) o.hash, cls.c_str(), (unsigned long long) hash, strip_nl(o.msg).c_str());
	if (o.status == 2 && o.cls == cls && o.hash == hash) { if (verbose) printf("VIOLATION property=%s replay=%s\n", s.prop.c_str(), path.c_str()); return 1; }
	if (o.status == 2 && o.cls == cls) { if (verbose) printf("same violation, different execution hash\nVIOLATION property=%s replay=%s\n", s.prop.c_str(), path.c_str()); return 4; }
	return o.status == 3 ? 2 : 0;
}

// ------------------------------------------------------------------ search
struct Shared {
	volatile int stop; volatile int viol_lock; volatile int have_viol; u64 viol_seed; u64 viol_i; char viol_cls[96]; char viol_msg[1600]; u64 viol_hash;
	volatile int have_err; char err_msg[1600]; u64 known_hits[64]; volatile u64 next;
};
struct WStat { u64 runs, nontriv, events, switches, simns, allocs, detchecks, other; u64 heap, cpu; u64 psum[PR_MAX], pruns[PR_MAX]; std::unordered_set<u64> hashes, scheds; std::map<std::string, u64> scen, outcls; };
static std::string json_esc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8) c < 32) o += ' '; else o += c; } return o; }
static std::string sample_of(const std::string &prop, u64 seed) {
	Spec s; gen_for(prop, seed, s, nullptr); std::string o = S("seed %llu scenario %s prime %lld threads %d", (unsigned long long) seed, s.scen.c_str(), (long long) s.prime, s.T);
	for (auto &m : s.mats) o += S(" %s=%dx%d/%zu", m.first.c_str(), m.second.n, m.second.m, m.second.e.size());
	for (auto &k : s.k) o += " " + k.first + "=" + std::to_string(k.second);
	for (auto &f : s.faults) o += S(" fault:%s(%lld,%lld)", f.kind.c_str(), (long long) f.a, (long long) f.b);
	return o;
}
static int check(const std::string &prop, const std::string &tier, u64 base, double budget, int workers, const std::string &root, const std::string &self, const char *force_scen, u64 maxruns) {
	const PropDef *pd = find_prop(prop); if (!pd) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
	double t0 = now(); load_known(root + "/known_findings.txt");
	printf("[sim] property %s, VERIF_SEED %llu, tier %s, %d workers, %.0f s\n", prop.c_str(), (unsigned long long) base, tier.c_str(), workers, budget); fflush(stdout);
	Shared *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *) sh, 0, sizeof *sh);
	mkdir((root + "/build").c_str(), 0755); std::string tmp = root + "/build/stat." + std::to_string(getpid());
	std::vector<pid_t> pids;
	for (int w = 0; w < workers; w++) {
		pid_t p = fork();
		if (p == 0) {
			RES = new_result(); WStat st{}; double tend = t0 + budget;
			for (;;) {
				if (sh->stop || now() > tend) break;
				u64 i = __sync_fetch_and_add(&sh->next, 1); if (maxruns && i >= maxruns) break;
				u64 seed = seed_of(base, prop, i);
				RunOut o = run_seed(prop, seed, force_scen);
				st.runs++; st.nontriv += o.nontrivial && o.status == 1; st.events += RES->events; st.switches += RES->switches; st.simns += RES->simtime_ns; st.allocs += RES->allocs;
				for (int k = 0; k < PR_MAX; k++) if (RES->probe[k]) { st.psum[k] += RES->probe[k]; st.pruns[k]++; }
				if (RES->nontrivial && o.status == 1) st.hashes.insert(o.hash); if (RES->switches) st.scheds.insert(o.schedhash);
				if (getenv("SIM_SLOW") && RES->cpu_us > 1e6 * atof(getenv("SIM_SLOW"))) fprintf(stderr, "[sim] slow: seed %llu scenario %s %.1f s\n", (unsigned long long) seed, RES->scen, RES->cpu_us * 1e-6);
				st.heap = std::max(st.heap, RES->heap); st.cpu = std::max(st.cpu, RES->cpu_us);
				st.scen[RES->scen]++; if (RES->outcome[0]) st.outcls[RES->outcome]++;
				if (o.status == 4) st.other++;
				if (o.status == 3) { sh->stop = 1; if (!__sync_lock_test_and_set(&sh->have_err, 1)) snprintf(sh->err_msg, sizeof sh->err_msg, "seed %llu (run %llu): %s", (unsigned long long) seed, (unsigned long long) i, o.msg.c_str()); break; }
				if (o.status == 2) {
					int ki = known_index(prop, o); if (ki >= 0) { __sync_fetch_and_add(&sh->known_hits[ki], 1); continue; }
					if (!__sync_lock_test_and_set(&sh->viol_lock, 1)) { sh->viol_seed = seed; sh->viol_i = i; snprintf(sh->viol_cls, 96, "%s", o.cls.c_str()); snprintf(sh->viol_msg, 1600, "%s", o.msg.c_str()); sh->viol_hash = o.hash; sh->have_viol = 1; }
					sh->stop = 1; break;
				}
				if (st.runs % 40 == 3) { // determinism sampling: same seed, same execution
					RunOut o2 = run_seed(prop, seed, force_scen); st.detchecks++;
					if (o2.status != o.status || o2.hash != o.hash) { sh->stop = 1; if (!__sync_lock_test_and_set(&sh->have_err, 1)) snprintf(sh->err_msg, sizeof sh->err_msg, "nondeterminism: seed %llu gives hash %llu then %llu", (unsigned long long) seed, (unsigned long long) o.hash, (unsigned long long) o2.hash); break; }
				}
			}
			FILE *f = fopen((tmp + "." + std::to_string(w)).c_str(), "w"); if (!f) _exit(1);
			fprintf(f, "%llu %llu %llu %llu %llu %llu %llu %llu %llu %llu\n", (unsigned long long) st.runs, (unsigned long long) st.nontriv, (unsigned long long) st.events, (unsigned long long) st.switches, (unsigned long long) st.simns, (unsigned long long) st.allocs, (unsigned long long) st.detchecks, (unsigned long long) st.other, (unsigned long long) st.heap, (unsigned long long) st.cpu);
			for (int k = 0; k < PR_MAX; k++) fprintf(f, "%llu %llu\n", (unsigned long long) st.psum[k], (unsigned long long) st.pruns[k]);
			fprintf(f, "%zu\n", st.scen.size()); for (auto &x : st.scen) fprintf(f, "%s %llu\n", x.first.c_str(), (unsigned long long) x.second);
			fprintf(f, "%zu\n", st.outcls.size()); for (auto &x : st.outcls) fprintf(f, "%s %llu\n", x.first.c_str(), (unsigned long long) x.second);
			fprintf(f, "%zu %zu\n", st.hashes.size(), st.scheds.size()); for (u64 h : st.hashes) fprintf(f, "%llx\n", (unsigned long long) h); for (u64 h : st.scheds) fprintf(f, "%llx\n", (unsigned long long) h);
			fclose(f); _exit(0);
		}
		pids.push_back(p);
	}
	for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
	WStat T{};
	for (int w = 0; w < workers; w++) {
		std::string fn = tmp + "." + std::to_string(w); FILE *f = fopen(fn.c_str(), "r"); if (!f) { fprintf(stderr, "worker %d died\n", w); return 2; }
		unsigned long long a[10]; for (auto &x : a) if (fscanf(f, "%llu", &x) != 1) return 2; T.runs += a[0]; T.nontriv += a[1]; T.events += a[2]; T.switches += a[3]; T.simns += a[4]; T.allocs += a[5]; T.detchecks += a[6]; T.other += a[7]; T.heap = std::max<u64>(T.heap, a[8]); T.cpu = std::max<u64>(T.cpu, a[9]);
		for (int k = 0; k < PR_MAX; k++) { unsigned long long x, y; if (fscanf(f, "%llu %llu", &x, &y) != 2) return 2; T.psum[k] += x; T.pruns[k] += y; }
		for (int z = 0; z < 2; z++) { size_t n; if (fscanf(f, "%zu", &n) != 1) return 2; for (size_t i = 0; i < n; i++) { char nm[128]; unsigned long long c; if (fscanf(f, "%127s %llu", nm, &c) != 2) return 2; (z ? T.outcls : T.scen)[nm] += c; } }
		size_t nh, ns; if (fscanf(f, "%zu %zu", &nh, &ns) != 2) return 2; for (size_t i = 0; i < nh + ns; i++) { unsigned long long h; if (fscanf(f, "%llx", &h) != 1) return 2; (i < nh ? T.hashes : T.scheds).insert(h); }
		fclose(f); unlink(fn.c_str());
	}
	double wall = now() - t0; int rc = 0; std::string verdict;
	if (sh->have_viol) {
		// gate: the same seed must fail the same way again, twice
		bool ok = true; for (int t = 0; t < 2; t++) { RunOut o = run_seed(prop, sh->viol_seed, force_scen); if (o.status != 2 || o.cls != sh->viol_cls || o.hash != sh->viol_hash) ok = false; }
		if (!ok) { fprintf(stderr, "[sim] harness error: violation with seed %llu does not reproduce (%s)\n", (unsigned long long) sh->viol_seed, sh->viol_msg); rc = 2; }
		else {
			Spec s; gen_for(prop, sh->viol_seed, s, force_scen); std::string cls = sh->viol_cls;
			printf("[sim] violation: seed %llu (run %llu) scenario %s class %s\n[sim]   %s\n", (unsigned long long) sh->viol_seed, (unsigned long long) sh->viol_i, s.scen.c_str(), cls.c_str(), strip_nl(sh->viol_msg).c_str()); fflush(stdout);
			mkdir((root + "/replays").c_str(), 0755); std::string path = root + "/replays/" + prop + "-" + std::to_string(sh->viol_seed) + ".replay";
			auto attempt = [&](const Spec &m) { RunOut o = run_explicit(m); if (o.status != 2 || o.cls != cls) return false; if (!write_replay(path, m, o)) return false;
				std::string cmd = "'" + self + "' replay '" + path + "' >/dev/null 2>&1"; int st = system(cmd.c_str()); return WIFEXITED(st) && WEXITSTATUS(st) == 1; };
			Spec m = minimise(s, cls, getenv("SIM_MIN_S") ? atof(getenv("SIM_MIN_S")) : tier == "thorough" ? 60 : 25);
			bool good = attempt(m); if (!good) { m = s; good = attempt(m); }
			if (!good) { fprintf(stderr, "[sim] harness error: replay file does not reproduce in a fresh process\n"); rc = 2; }
			else { size_t ne = 0; for (auto &x : m.mats) ne += x.second.e.size(); printf("[sim] minimised: threads %d, %zu matrix entries, %zu faults, %s\n", m.T, ne, m.faults.size(), m.replay ? (std::to_string(m.sw.size()) + " explicit context switches").c_str() : "seeded schedule");
				printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str()); rc = 1; }
		}
	} else if (sh->have_err) { fprintf(stderr, "[sim] harness error: %s\n", sh->err_msg); rc = 2; }
	for (size_t i = 0; i < known.size() && i < 64; i++) if (known[i].prop == prop) printf("KNOWN-FINDING: property=%s %s (seen in %llu runs)\n", prop.c_str(), known[i].what.c_str(), (unsigned long long) sh->known_hits[i]);
	// evidence
	mkdir((root + "/evidence").c_str(), 0755); std::ofstream e(root + "/evidence/" + prop + ".json");
	e << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << base << ", \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << T.runs << ", \"distinct_nontrivial\": " << T.hashes.size() << ",\n  \"rule\": \"" << json_esc(pd->rule) << " Distinct: executions are told apart by a hash of the schedule, the events and the observed results.\",\n";
	e << "  \"simulated_runs\": " << T.runs << ", \"runs_per_hour\": " << (u64) (T.runs / wall * 3600) << ", \"nontrivial_runs\": " << T.nontriv << ",\n  \"distinct_interleavings\": " << T.scheds.size() << ", \"interleaving_measure\": \"distinct sequences of (event number, thread) context switches among runs with at least one switch\",\n";
	e << "  \"simulated_steps\": " << T.events << ", \"context_switches\": " << T.switches << ", \"simulated_time_s\": " << S("%.3f", T.simns * 1e-9) << ", \"allocations\": " << T.allocs << ", \"determinism_double_runs\": " << T.detchecks << ", \"runs_failing_for_another_property\": " << T.other << ", \"largest_run_bytes_allocated\": " << T.heap << ", \"largest_run_cpu_ms\": " << T.cpu / 1000 << ",\n";
	e << "  \"scenarios\": {"; { bool first = true; for (auto &x : T.scen) { e << (first ? "" : ", ") << "\"" << x.first << "\": " << x.second; first = false; } } e << "},\n  \"outcomes\": {"; { bool first = true; for (auto &x : T.outcls) { e << (first ? "" : ", ") << "\"" << x.first << "\": " << x.second; first = false; } } e << "},\n";
	e << "  \"faults_and_probes\": {"; { bool first = true; for (int k = 0; k < PR_MAX; k++) if (T.pruns[k]) { e << (first ? "" : ", ") << "\n   \"" << probe_names[k] << "\": {\"count\": " << T.psum[k] << ", \"runs\": " << T.pruns[k] << "}"; first = false; } } e << "},\n";
	e << "  \"real_components\": \"all of src/*.c, spasm_ffpack.cpp, FFLAS-FFPACK/Givaro/BLAS, tools/*.c, glibc stdio formatting and buffering, argp, getopt\", \"stub_components\": \"OpenMP runtime (libgomp ABI), threads (fibers), allocator, rand, clocks, read/write requests and file system, exit/abort/err\",\n";
	e << "  \"samples\": ["; for (int i = 0; i < 4; i++) e << (i ? ", " : "") << "\n   \"" << json_esc(sample_of(prop, seed_of(base, prop, i))) << "\""; e << "]\n },\n";
	e << " \"assumptions\": [\"sequentially consistent memory (interleavings of memory accesses, no weak-memory reordering)\", \"matrices mostly of at most a few dozen rows and columns; about one in fourteen has between seventy and a few hundred, or some thousands by a few\", \"BLAS, Givaro and FFPACK run as real code on one thread\"],\n \"wall_s\": " << S("%.2f", now() - t0) << ", \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n"; e.close();
	printf("[sim] %llu runs (%llu non-trivial, %zu distinct), %zu distinct interleavings, %.1f s, %s\n", (unsigned long long) T.runs, (unsigned long long) T.nontriv, T.hashes.size(), T.scheds.size(), now() - t0, rc == 0 ? "held on everything explored" : rc == 1 ? "VIOLATED" : "ERROR");
	return rc;
}
int main(int argc, char **argv) {
	std::vector<std::string> a(argv + 1, argv + argc); if (a.empty()) { fprintf(stderr, "usage: simcheck check PROP TIER ROOT | replay FILE | seed PROP SEED [dump] | list\n"); return 2; }
	if (!getenv("SIM_NOASLR")) { int per = personality(0xffffffff); setenv("SIM_NOASLR", "1", 1); if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && personality(per | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }   // addresses repeat from process to process, where allowed
	setenv("OPENBLAS_NUM_THREADS", "1", 1); setenv("OMP_NUM_THREADS", "1", 1);
	sim_init(); RES = new_result();
	const char *es = getenv("VERIF_SEED"); u64 base = es ? strtoull(es, nullptr, 10) : 1;
	char self[4096]; ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1); self[l < 0 ? 0 : l] = 0;
	if (a[0] == "check" && a.size() >= 4) {
		double b = getenv("SIM_BUDGET") ? atof(getenv("SIM_BUDGET")) : a[2] == "thorough" ? 420 : 40; int w = getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : 8;
		if (!getenv("SIM_WORKERS")) { long nc = sysconf(_SC_NPROCESSORS_ONLN); if (nc > 0 && nc < w) w = nc; }
		return check(a[1], a[2], base, b, w, a[3], self, getenv("SIM_SCEN"), getenv("SIM_RUNS") ? strtoull(getenv("SIM_RUNS"), nullptr, 10) : 0);
	}
	if (a[0] == "replay" && a.size() >= 2) { int r = replay_file(a[1], true); return r; }
	if (a[0] == "seed" && a.size() >= 3) { Spec s; gen_for(a[1], strtoull(a[2].c_str(), nullptr, 10), s, getenv("SIM_SCEN")); if (a.size() > 3) { printf("%s", s.dump().c_str()); } RunOut o = run_explicit(s); printf("status %d class %s hash %llu sched %llu events %llu switches %llu\n%s\n", o.status, o.cls.c_str(), (unsigned long long) o.hash, (unsigned long long) o.schedhash, (unsigned long long) RES->events, (unsigned long long) RES->switches, o.msg.c_str()); return 0; }
	if (a[0] == "index" && a.size() >= 3) { printf("%llu\n", (unsigned long long) seed_of(base, a[1], strtoull(a[2].c_str(), nullptr, 10))); return 0; }
	fprintf(stderr, "bad command\n"); return 2;
}
