#include "iotext.h"
#include <algorithm>
#include <climits>
void gen_text(Rng &r, Spec &s, const char *pfx, bool plain) {
	std::string x(pfx); s.k[x + ".fmt"] = r.chance(1, 3); s.k[x + ".style"] = plain ? 0 : (i64) (r.next() & r.next() & 511) | (r.chance(1, 2) ? 1 : 0) | (r.chance(1, 6) ? 1024 : 0); s.k[x + ".tseed"] = (i64) (r.next() >> 2);
}
Text render(const Mat &M, u64 prime, const Spec &s, const char *pfx) {
	std::string x(pfx); Rng r(s.get((x + ".tseed").c_str(), 7)); i64 st = s.get((x + ".style").c_str()); bool mm = s.get((x + ".fmt").c_str()); Text T; T.n = M.n; T.m = M.m; std::vector<Entry> L; i64 p = (i64) prime;
	for (auto &e : M.e) {
		i64 v = e.x; if (st & 8) { int b = r.below(4); i64 lim = b == 0 ? 3 : b == 1 ? 1000 : b == 2 ? (1ll << 40) / p : (LLONG_MAX - p) / p - 2; v += r.range(-lim, lim) * p; }
		if ((st & 2) && r.chance(1, 4)) { i64 a = (i64) (r.next() % (u64) p); L.push_back({e.i, e.j, a}); L.push_back({e.i, e.j, v > 0 ? v - a : v - a}); if ((v > 0) != (v - a > 0) || true) {} } else L.push_back({e.i, e.j, v}); }
	if ((st & 4) && M.n && M.m) for (int t = 0; t < 1 + (int) r.below(4); t++) { int i = r.below(M.n), j = r.below(M.m); int kind = r.below(3); if (kind == 0) L.push_back({i, j, 0}); else if (kind == 1) L.push_back({i, j, (r.chance(1, 2) ? 1 : -1) * p * (i64) (1 + r.below(5))}); else if (st & 2) { i64 a = 1 + r.below(p - 1); L.push_back({i, j, a}); L.push_back({i, j, -a}); } }
	if (st & 1) for (int t = (int) L.size() - 1; t > 0; t--) std::swap(L[t], L[r.below(t + 1)]);
	const char *nl = (st & 128) ? "\r\n" : "\n"; std::string o; char b[160];
	auto sp = [&]() { return !(st & 16) ? " " : r.pick({" ", "  ", "\t", " \t "}); };
	if (mm) { const char *h[] = {"%%MatrixMarket matrix coordinate integer general", "%%MatrixMarket Matrix Coordinate Integer General", "%%MatrixMarket matrix  coordinate  integer\tgeneral", "%%MatrixMarket MATRIX COORDINATE INTEGER GENERAL"}; o += h[(st & 64) ? r.below(4) : 0]; o += nl;
		if (st & 64) for (int t = 0; t < (int) r.below(4); t++) { o += r.pick({"%", "% comment", "%% another 1 2 3", "%-------", "% 0 0 0"}); o += nl; }
		if (st & 1024) for (int t = 0; t < 1 + (int) r.below(4); t++) { o += '%'; o += std::string(r.chance(1, 2) ? r.below(140) : r.below(1000), (char) ('a' + r.below(26))); o += nl; }   // long lines
		snprintf(b, sizeof b, "%d%s%d%s%zu", M.n, sp(), M.m, sp(), L.size()); o += b; }
	else { snprintf(b, sizeof b, "%d%s%d%sM", M.n, sp(), M.m, sp()); o += b; }
	if ((st & 256) && !mm) o += " ";
	o += nl;
	for (auto &e : L) { if ((st & 256) && r.chance(1, 4)) o += " "; if ((st & 1024) && r.chance(1, 6)) o += std::string(r.chance(1, 2) ? r.below(100) : r.below(900), ' '); snprintf(b, sizeof b, "%d%s%d%s%lld", e.i + 1, sp(), e.j + 1, sp(), (long long) e.x); o += b; if ((st & 256) && r.chance(1, 4)) o += "  "; o += nl; }
	if (!mm) { snprintf(b, sizeof b, "0%s0%s0", sp(), sp()); o += b; o += nl; }
	if (st & 32) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
	if (st & 512) { if (o.empty() || o.back() != '\n') o += nl; for (int t = 1 + (int) r.below(4); t > 0; t--) { o += r.pick({"", "", " ", "% trailing", "end", "1 1 1", "0 0 0", "# x"}); if (t > 1 || r.chance(3, 4)) o += nl; } }   // accepted with a warning
	T.text = o; T.listed = L; return T;
}
static const char *TOK[] = {"-1", "0", "1", "7", "99999999999", "2147483648", "2147483647", "-2147483648", "4294967297", "1000000000", "4611686018427387904", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551617", "abc", "1.5", "+3", "", "M", "0x10", "1e3", "%", "--1", "2 2"};
static const char *INS[] = {"\n", "0 0 0\n", " ", "%\n", "1 1 1\n", "1 2\n", "1 1\n1\n", "x", "-", "9", "0 0 1\n", "1 0 1\n", "0 1 1\n", "%%MatrixMarket matrix coordinate integer general\n", "1 1 M\n", "\t", "\r", "1 1 5 7\n", "99 99 1\n"};
void gen_damage(Rng &r, Spec &s, const char *pfx, int count) {
	std::string x(pfx);
	for (int t = 0; t < count; t++) { Fault f; f.a = (i64) (r.next() >> 40); switch (r.below(9)) {
		case 0: f.kind = x + ".txttrunc"; break; case 1: f.kind = x + ".txtflip"; f.b = r.chance(1, 2) ? 1 << r.below(8) : 1 + r.below(255); break;
		case 2: f.kind = x + ".txtdel"; f.b = 1 + r.below(r.chance(1, 2) ? 3 : 40); break; case 3: f.kind = x + ".txtins"; f.b = r.below(sizeof INS / sizeof *INS); break;
		case 4: case 5: f.kind = x + ".txttok"; f.b = r.below(sizeof TOK / sizeof *TOK); break; case 6: f.kind = x + ".txthdr"; f.a = r.below(4); f.b = r.below(sizeof TOK / sizeof *TOK); break;
		case 7: f.kind = x + ".txtline"; break; default: f.kind = x + ".txtlong"; f.b = r.chance(1, 2) ? r.pick({900, 1020, 1021, 1022, 1023, 1024, 1025, 2050}) : (i64) (1000 + r.below(r.chance(1, 2) ? 40 : 1200)); f.c = r.below(7); }
		s.faults.push_back(f); }
}
std::string damage(std::string t, const Spec &s, const char *pfx) {
	std::string x(pfx);
	auto tokens = [&](size_t from, size_t to) { std::vector<std::pair<size_t, size_t>> v; size_t i = from; while (i < to) { while (i < to && isspace((u8) t[i])) i++; size_t b = i; while (i < to && !isspace((u8) t[i])) i++; if (i > b) v.push_back({b, i}); } return v; };
	for (auto &f : s.faults) { if (f.kind.compare(0, x.size() + 4, x + ".txt")) continue; std::string k = f.kind.substr(x.size() + 4); size_t n = t.size(); if (n == 0) break; size_t a = (u64) f.a % n;
		if (k == "trunc") t.resize(a); else if (k == "flip") { t[a] ^= (char) f.b; probe(PR_BYTE_FLIP); } else if (k == "del") t.erase(a, f.b); else if (k == "ins") t.insert(a, INS[f.b % (sizeof INS / sizeof *INS)]);
		else if (k == "tok") { auto v = tokens(0, n); if (!v.empty()) { auto z = v[(u64) f.a % v.size()]; t.replace(z.first, z.second - z.first, TOK[f.b % (sizeof TOK / sizeof *TOK)]); } }
		else if (k == "hdr") { size_t b = 0, e; for (;;) { e = t.find('\n', b); if (e == std::string::npos) e = n; if (e > b && t[b] != '%') break; if (e >= n) break; b = e + 1; } auto v = tokens(b, e); if (!v.empty()) { auto z = v[(u64) f.a % v.size()]; t.replace(z.first, z.second - z.first, TOK[f.b % (sizeof TOK / sizeof *TOK)]); } }
		else if (k == "line") { size_t b = t.rfind('\n', a); b = b == std::string::npos ? 0 : b + 1; size_t e = t.find('\n', a); e = e == std::string::npos ? n : e + 1; if (e > b) t.erase(b, e - b); }
		else if (k == "long") { std::string fill((size_t) f.b, f.c == 0 ? ' ' : f.c == 1 ? '0' : '%');
			if (f.c >= 3) { const char *unit = f.c & 1 ? " 1 1 5" : " 2 1 7 "; for (size_t u = f.c >= 5 ? 1 : 0, v = 0, l = strlen(unit); u < fill.size(); u++, v++) fill[u] = unit[v % l]; if (f.c >= 5 || (f.b & 1)) { size_t b = t.rfind('\n', a); a = b == std::string::npos ? 0 : b + 1; if (f.c >= 5) fill += "\n"; } }   // numbers far to the right: of a line, or of a comment
			t.insert(a, fill); } }
	return t;
}
// one integer as read by the scanf family: white space, sign, digits.  ovf: does not fit 64 bits.
static bool scan_int(const std::string &l, size_t &i, i64 &v, bool &ovf, u64 p = 1) {
	while (i < l.size() && isspace((u8) l[i])) i++; bool neg = false; if (i < l.size() && (l[i] == '-' || l[i] == '+')) { neg = l[i] == '-'; i++; } if (i >= l.size() || !isdigit((u8) l[i])) return false;
	__int128 x = 0; u64 red = 0; while (i < l.size() && isdigit((u8) l[i])) { if (x < ((__int128) 1 << 100)) x = x * 10 + (l[i] - '0'); red = (red * 10 + (l[i] - '0')) % p; i++; } if (neg) x = -x; if (x > LLONG_MAX || x < LLONG_MIN) { ovf = true; v = neg ? -(i64) red : (i64) red; } else v = (i64) x; return true;
}
RefParse ref_parse(const std::string &t, bool values, u64 p) {   // a coefficient that does not fit 64 bits is represented by its residue
	RefParse R; if (t.find('\0') != std::string::npos) { R.st = REF_SKIP; R.why = "NUL bytes"; return R; }
	std::vector<std::string> L; for (size_t p = 0; p < t.size();) { size_t e = t.find('\n', p); bool last = e == std::string::npos; if (last) e = t.size(); L.push_back(t.substr(p, e - p)); p = e + 1; }
	auto fail = [&](const std::string &w) { R.st = REF_FAIL; R.why = w; return R; }; auto skip = [&](const char *w) { R.st = REF_SKIP; R.why = w; return R; };
	if (L.empty()) return fail("empty"); size_t k = 0; i64 n, m, nnz = -1, v; bool ov = false; size_t i = 0;
	if (L[0].compare(0, 14, "%%MatrixMarket") == 0) { R.mm = true; std::vector<std::string> w; std::string h = L[0].substr(14), c; for (char ch : h + " ") if (isspace((u8) ch)) { if (!c.empty()) w.push_back(c); c.clear(); } else c += (char) tolower((u8) ch);
		if (w.size() < 4 || w[0] != "matrix" || w[1] != "coordinate" || w[2] != "integer" || w[3] != "general") return fail("bad MatrixMarket header");
		if (L[0].size() > 14 && !isspace((u8) L[0][14])) return skip("unusual MatrixMarket header");
		k = 1; while (k < L.size() && !L[k].empty() && L[k][0] == '%') k++; if (k >= L.size()) return fail("no dimensions");
		if (!scan_int(L[k], i, n, ov) || !scan_int(L[k], i, m, ov) || !scan_int(L[k], i, nnz, ov)) return fail("bad dimensions"); if (ov) return fail("dimensions or number of entries too large"); if (nnz < 0) return fail("negative number of entries"); }
	else { if (!scan_int(L[0], i, n, ov) || !scan_int(L[0], i, m, ov)) return fail("bad header"); while (i < L[0].size() && isspace((u8) L[0][i])) i++; if (i >= L[0].size()) return fail("no type"); if (values && L[0][i] != 'M') return fail("bad type"); if (ov) return fail("dimensions too large"); }
	if (n < 0 || m < 0) return fail("negative dimensions"); if (n > INT_MAX || m > INT_MAX) return fail("dimensions too large");
	R.n = n; R.m = m; bool end = R.mm && nnz == 0;
	for (k++; !end; k++) {
		if (k >= L.size()) return fail("premature end of file"); i64 a, b; i = 0; ov = false; if (!scan_int(L[k], i, a, ov) || !scan_int(L[k], i, b, ov)) return fail("bad entry line"); if (ov) return fail("coordinates too large"); if (!scan_int(L[k], i, v, ov, p)) return fail("bad entry line");
		if (a == 0 && b == 0 && v == 0) { if (R.mm) return fail("SMS end marker"); break; }
		if (a < 1 || b < 1 || a > INT_MAX || b > INT_MAX) return fail("bad coordinates"); R.e.push_back({(int) a - 1, (int) b - 1, v}); if (R.mm && (i64) R.e.size() == nnz) end = true; }
	R.st = REF_OK; return R;
}
std::string delivered(const std::string &t, const StreamPolicy &p) { std::string d = t; for (auto &f : p.flips) if (f.first >= 0 && f.first < (i64) d.size()) d[f.first] ^= (char) f.second; if (p.eof_at >= 0 && p.eof_at < (i64) d.size()) d.resize(p.eof_at); if (p.eio_at >= 0 && p.eio_at < (i64) d.size()) d.resize(p.eio_at); return d; }
std::string listing(const std::string &t) { std::string o; for (char c : t.substr(0, 300)) { if (c == '\n') o += "\\n"; else if ((u8) c < 32 || (u8) c > 126) o += S("\\x%02x", (u8) c); else o += c; } return o; }
