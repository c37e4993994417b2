// Simulated file system and streams: real stdio buffering (fopencookie) over simulated read/write requests.
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <map>
#include <algorithm>
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>

static std::map<std::string, SimFile> files;
static std::map<std::string, StreamPolicy> policies;
struct Handle { std::string name; StreamPolicy pol; Rng rng; i64 pos = 0, reps = 0; size_t rpos = 0; bool rd = false, wr = false, once = false; u64 calls = 0; FILE *f = nullptr; char *buf = nullptr; bool open = true; };
static std::vector<Handle *> handles;
static std::map<std::string, u64> bytes_w, calls_w;
extern "C" { FILE *sim_stdin, *sim_stdout, *sim_stderr; }

void fs_reset() { files.clear(); policies.clear(); handles.clear(); bytes_w.clear(); calls_w.clear();
	static FILE *err = nullptr;
	if (!err) { cookie_io_functions_t io = {}; io.write = [](void *, const char *b, size_t n) -> ssize_t { if (sim_log.size() < 8000000) sim_log.append(b, n); return n; }; err = fopencookie(nullptr, "w", io); setvbuf(err, nullptr, _IONBF, 0); }
	sim_stderr = err; sim_stdin = sim_stdout = nullptr; fs_put("<stdin>", ""); fs_put("<stdout>", ""); }
void fs_repeat(const std::string &n, i64 at, const std::string &block, i64 count) { SimFile &f = files[n]; f.rep_at = at; f.rep = block; f.rep_count = count; }
void fs_put(const std::string &n, const std::string &c) { files[n].data.assign(c.begin(), c.end()); files[n].exists = true; }
bool fs_get(const std::string &n, std::string &c) { auto it = files.find(n); if (it == files.end() || !it->second.exists) return false; c.assign(it->second.data.begin(), it->second.data.end()); return true; }
void fs_policy(const std::string &n, const StreamPolicy &p) { policies[n] = p; }
u64 fs_bytes_written(const std::string &n) { return bytes_w[n]; }
u64 fs_write_calls(const std::string &n) { return calls_w[n]; }

static size_t chunk(Handle *h, size_t want) {
	switch (h->pol.chunkmode) {
	case 1: return 1;
	case 2: return std::min<size_t>(want, 1 + h->rng.below(7));
	case 3: return std::min<size_t>(want, 1 + h->rng.below(want));
	}
	return want;
}
static ssize_t ck_read(void *c, char *b, size_t n) {
	Handle *h = (Handle *) c; SimFile &f = files[h->name]; StreamPolicy &p = h->pol;
	i64 end = (i64) f.data.size();
	bool cut = false;
	if (p.eof_at >= 0 && p.eof_at < end) { end = p.eof_at; cut = true; }
	if (p.eio_at >= 0 && h->pos >= p.eio_at) { probe(PR_READ_EIO); errno = p.err ? p.err : EIO; return -1; }
	if (p.eio_once >= 0 && !h->once && h->pos >= p.eio_once) { h->once = true; probe(PR_READ_EIO); probe(PR_READ_ONCE); errno = p.err ? p.err : EIO; return -1; }
	if (h->pos >= end) { if (cut) probe(PR_EARLY_EOF); return 0; }
	size_t k = std::min<size_t>(n, end - h->pos);
	if (p.eio_at >= 0) k = std::min<size_t>(k, p.eio_at - h->pos); if (p.eio_once >= 0 && !h->once) k = std::min<size_t>(k, p.eio_once - h->pos);
	size_t k2 = chunk(h, k); if (k2 < k) probe(PR_SHORT_READ); k = k2;
	if (f.rep_at >= 0) { if (h->pos < f.rep_at) k = std::min<size_t>(k, f.rep_at - h->pos); else if (h->reps < f.rep_count) { size_t d = 0; while (d < n && h->reps < f.rep_count) { size_t q = std::min<size_t>(n - d, f.rep.size() - h->rpos); memcpy(b + d, f.rep.data() + h->rpos, q); d += q; h->rpos += q; if (h->rpos == f.rep.size()) { h->rpos = 0; h->reps++; } } return d; } }
	memcpy(b, f.data.data() + h->pos, k);
	for (auto &fl : p.flips) if (fl.first >= h->pos && fl.first < h->pos + (i64) k) { b[fl.first - h->pos] ^= fl.second; probe(PR_BYTE_FLIP); }
	h->pos += k; return k;
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
	Handle *h = (Handle *) c; StreamPolicy &p = h->pol; size_t done = 0;
	while (done < n) {  // libc retries short writes
		SimFile &f = files[h->name];
		h->calls++; calls_w[h->name]++;
		if (p.err_after_calls >= 0 && (i64) h->calls > p.err_after_calls) { probe(PR_WRITE_EIO); errno = p.err ? p.err : EIO; break; }
		if (p.err_once >= 0 && (i64) h->calls == p.err_once + 1) { probe(PR_WRITE_EIO); probe(PR_WRITE_ONCE); errno = p.err ? p.err : EIO; break; }
		size_t k = chunk(h, n - done); if (k < n - done) probe(PR_SHORT_WRITE);
		if (p.nospc_at >= 0) { if ((i64) f.data.size() >= p.nospc_at) { probe(PR_WRITE_ENOSPC); errno = ENOSPC; break; } k = std::min<size_t>(k, p.nospc_at - f.data.size()); }
		if (p.eio_at >= 0) { if ((i64) f.data.size() >= p.eio_at) { probe(PR_WRITE_EIO); errno = p.err ? p.err : EIO; break; } k = std::min<size_t>(k, p.eio_at - f.data.size()); }
		if (p.crash_at >= 0) { if ((i64) f.data.size() >= p.crash_at) { probe(PR_CRASH); sim_crashed = true; sim_die(O_EXIT, 137, "simulated crash"); } k = std::min<size_t>(k, p.crash_at - f.data.size()); }
		f.data.insert(f.data.end(), b + done, b + done + k); done += k; h->pos += k; bytes_w[h->name] += k;
	}
	return done ? (ssize_t) done : (n ? 0 : 0);
}
static int ck_seek(void *c, off64_t *off, int wh) { Handle *h = (Handle *) c; if (!h->rd) { errno = ESPIPE; return -1; } i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? h->pos : (i64) files[h->name].data.size(); b += *off; if (b < 0) { errno = EINVAL; return -1; } h->pos = b; *off = b; return 0; }
static int ck_close(void *c) { ((Handle *) c)->open = false; return 0; }

FILE *fs_open(const std::string &name, const char *mode) {
	bool r = strchr(mode, 'r'), w = strchr(mode, 'w'), a = strchr(mode, 'a');
	if (r && !files[name].exists) { errno = ENOENT; return nullptr; }
	if (w) { files[name].data.clear(); files[name].exists = true; }
	if (a) files[name].exists = true;
	Handle *h = new Handle; h->name = name; auto it = policies.find(name); if (it != policies.end()) h->pol = it->second;
	h->rng = Rng(h->pol.chunkseed); h->rd = r; h->wr = w || a;
	cookie_io_functions_t io = {}; io.read = ck_read; io.write = ck_write; io.close = ck_close; if (name[0] != '<') io.seek = ck_seek;
	h->f = fopencookie(h, mode, io);
	int bs = std::max(1, h->pol.bufsize); h->buf = (char *) malloc(bs + 16);
	if (bs <= 1) setvbuf(h->f, nullptr, _IONBF, 0); else setvbuf(h->f, h->buf, _IOFBF, bs);
	handles.push_back(h); return h->f;
}
int fs_close(FILE *f) { return fclose(f); }
void fs_flush_all() { for (auto h : handles) if (h->open && h->wr) fflush(h->f); }
void fs_std(const char *in, const char *out) {
	if (in) sim_stdin = fs_open(in, "r");
	if (out) { sim_stdout = fs_open(out, "a"); }
}
void fs_new_process() { for (auto h : handles) h->open = false; handles.clear(); }
extern "C" FILE *sim_fopen(const char *n, const char *m) {
	std::string name(n);
	auto it = policies.find(name); if (it != policies.end() && it->second.bufsize == -99) { probe(PR_OPEN_FAIL); errno = EACCES; return nullptr; }
	if (name == "/dev/stdout") return sim_stdout; if (name == "/dev/stdin") return sim_stdin;
	return fs_open(name, m);
}
extern "C" int sim_fclose(FILE *f) { return fclose(f); }
extern "C" int sim_fileno(FILE *f) { if (f == sim_stdin) return 0; if (f == sim_stdout) return 1; if (f == sim_stderr) return 2; return 50; }
extern "C" int sim_fsync(int) { return 0; }
extern "C" int sim_fflush(FILE *f) { if (f) return fflush(f); fs_flush_all(); return 0; }
extern "C" int sim_remove(const char *n) { files[n].exists = false; files[n].data.clear(); return 0; }
extern "C" int sim_unlink(const char *n) { if (!files.count(n) || !files[n].exists) { errno = ENOENT; return -1; } return sim_remove(n); }
extern "C" int sim_access(const char *n, int) { if (!files.count(n) || !files[n].exists) { errno = ENOENT; return -1; } return 0; }
extern "C" int sim_rename(const char *a, const char *b) { if (!files[a].exists) { errno = ENOENT; return -1; } files[b] = files[a]; files[a].exists = false; files[a].data.clear(); return 0; }
