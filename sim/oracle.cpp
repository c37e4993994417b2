#include "oracle.h"
#include <cstdlib>
#include <algorithm>
u32 nrm(i64 x, u64 p) { i64 r = (i64) ((__int128) x % (__int128) p); if (r < 0) r += p; return (u32) r; }
static u32 pw(u64 a, u64 e, u64 p) { u64 r = 1 % p; a %= p; while (e) { if (e & 1) r = (unsigned __int128) r * a % p; a = (unsigned __int128) a * a % p; e >>= 1; } return (u32) r; }
u32 inv_mod(u32 a, u64 p) { return pw(a, p - 2, p); }
Dense from_mat(const Mat &M, u64 p) { Dense D(M.n, M.m, p); for (auto &e : M.e) D.at(e.i, e.j) = (u32) (((u64) D.at(e.i, e.j) + nrm(e.x, p)) % p); return D; }
std::vector<int> rref(Dense &D) {
	std::vector<int> piv, nz; int r = 0; u64 p = D.p;
	for (int j = 0; j < D.m && r < D.n; j++) {
		int k = -1; for (int i = r; i < D.n; i++) if (D.at(i, j)) { k = i; break; }
		if (k < 0) continue;
		if (k != r) for (int c = 0; c < D.m; c++) std::swap(D.at(k, c), D.at(r, c));
		u64 iv = inv_mod(D.at(r, j), p);
		u32 *rr = &D.a[(size_t) r * D.m];
		for (int c = j; c < D.m; c++) rr[c] = (u32) (rr[c] * iv % p);
		nz.clear(); for (int c = j; c < D.m; c++) if (rr[c]) nz.push_back(c);
		for (int i = 0; i < D.n; i++) if (i != r) { u32 *ri = &D.a[(size_t) i * D.m]; u64 f = ri[j]; if (!f) continue; u64 g = p - f;
			for (int c : nz) ri[c] = (u32) ((ri[c] + g * rr[c]) % p); }
		piv.push_back(j); r++;
	}
	return piv;
}
int rank_of(Dense D) { if (D.n > D.m) D = transpose(D); return rref(D).size(); }
Dense mul(const Dense &A, const Dense &B) { Dense C(A.n, B.m, A.p); for (int i = 0; i < A.n; i++) for (int k = 0; k < A.m; k++) { u64 x = A.at(i, k); if (!x) continue; for (int j = 0; j < B.m; j++) C.at(i, j) = (u32) ((C.at(i, j) + x * B.at(k, j)) % A.p); } return C; }
Dense transpose(const Dense &A) { Dense T(A.m, A.n, A.p); for (int i = 0; i < A.n; i++) for (int j = 0; j < A.m; j++) T.at(j, i) = A.at(i, j); return T; }
Space::Space(const Dense &A) : R(A) { piv = rref(R); }
bool Space::contains(const u32 *v) const {
	u64 p = R.p; std::vector<u32> w(v, v + R.m);
	for (size_t r = 0; r < piv.size(); r++) { u64 f = w[piv[r]]; if (!f) continue; u64 g = p - f; for (int c = 0; c < R.m; c++) w[c] = (u32) ((w[c] + g * R.at(r, c)) % p); }
	for (u32 x : w) if (x) return false; return true;
}
// SHA-256, straight from FIPS 180-4 (constants derived from the primes)
static u32 frac_root(int prime, bool cube) { // first 32 bits of the fractional part, integer arithmetic
	unsigned __int128 lo = 0, hi = (unsigned __int128) 1 << 40; // root * 2^32
	while (lo + 1 < hi) { unsigned __int128 mid = (lo + hi) / 2; bool le;
		if (!cube) le = mid * mid <= ((unsigned __int128) prime << 64);
		else { // mid^3 <= prime * 2^96 ; mid < 2^36 -> mid^3 < 2^108
			le = mid * mid * mid <= ((unsigned __int128) prime << 96); }
		if (le) lo = mid; else hi = mid; if (hi > ((unsigned __int128) 1 << 37)) {} }
	return (u32) lo;
}
std::string sha256_hex(const std::string &data) { return sha256_hex(data, 0, std::string(), 0); }
// digest of `data` with `count` copies of `block` inserted at offset `at`
std::string sha256_hex(const std::string &data, size_t at, const std::string &block, u64 count) {
	static u32 K[64], H0[8]; static bool init = false;
	if (!init) { int c = 0; for (int q = 2; c < 64; q++) { bool pr = true; for (int d = 2; d * d <= q; d++) if (q % d == 0) pr = false; if (!pr) continue; if (c < 8) H0[c] = frac_root(q, false); K[c++] = frac_root(q, true); } init = true; }
	u64 bits = ((u64) data.size() + block.size() * count) * 8; std::string s = data.substr(0, at), end = data.substr(at); end.push_back((char) 0x80); while ((s.size() + block.size() * count + end.size()) % 64 != 56) end.push_back(0); for (int i = 7; i >= 0; i--) end.push_back((char) (bits >> (8 * i)));
	u32 h[8]; for (int i = 0; i < 8; i++) h[i] = H0[i];
	auto rr = [](u32 x, int n) { return (x >> n) | (x << (32 - n)); };
	for (size_t o = 0;; o += 64) { if (o + 64 > s.size()) { s.erase(0, o); o = 0; for (u64 k = 0; k < 4096 && count; k++, count--) s += block; if (!count) { s += end; end.clear(); } if (s.empty()) break; } u32 w[64]; for (int i = 0; i < 16; i++) w[i] = ((u32) (u8) s[o + 4*i] << 24) | ((u32) (u8) s[o + 4*i + 1] << 16) | ((u32) (u8) s[o + 4*i + 2] << 8) | (u8) s[o + 4*i + 3];
		for (int i = 16; i < 64; i++) { u32 a = rr(w[i-15], 7) ^ rr(w[i-15], 18) ^ (w[i-15] >> 3), b = rr(w[i-2], 17) ^ rr(w[i-2], 19) ^ (w[i-2] >> 10); w[i] = w[i-16] + a + w[i-7] + b; }
		u32 a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
		for (int i = 0; i < 64; i++) { u32 S1 = rr(e, 6) ^ rr(e, 11) ^ rr(e, 25), ch = (e & f) ^ (~e & g), t1 = hh + S1 + ch + K[i] + w[i], S0 = rr(a, 2) ^ rr(a, 13) ^ rr(a, 22), mj = (a & b) ^ (a & c) ^ (b & c), t2 = S0 + mj; hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2; }
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh; }
	char out[65]; for (int i = 0; i < 8; i++) snprintf(out + 8 * i, 9, "%08x", h[i]); return out;
}
// strict SMS parser for files produced by the code under test
static bool line_of(const std::string &t, size_t &pos, std::string &l) { if (pos >= t.size()) return false; size_t e = t.find('\n', pos); if (e == std::string::npos) return false; l = t.substr(pos, e - pos); pos = e + 1; return true; }
static bool ints(const std::string &l, long long *v, int k, std::string *rest) {
	const char *s = l.c_str(); for (int i = 0; i < k; i++) { if (i && *s == ' ') s++; char *e; if (*s != '-' && (*s < '0' || *s > '9')) return false; v[i] = strtoll(s, &e, 10); if (e == s) return false; s = e; } if (rest) *rest = s; else if (*s) return false; return true; }
Parsed parse_sms_strict(const std::string &t) {
	Parsed r; size_t pos = 0; std::string l, rest; long long v[3];
	if (!line_of(t, pos, l) || !ints(l, v, 2, &rest) || rest != " M") { r.why = "bad header `" + l.substr(0, 60) + "'"; return r; }
	r.n = v[0]; r.m = v[1]; if (r.n < 0 || r.m < 0) { r.why = "negative dimensions"; return r; }
	for (;;) { if (!line_of(t, pos, l)) { r.why = "missing end marker or unterminated line"; return r; }
		if (!ints(l, v, 3, nullptr)) { r.why = "bad entry line `" + l.substr(0, 60) + "'"; return r; }
		if (v[0] == 0 && v[1] == 0 && v[2] == 0) break;
		if (v[0] < 1 || v[0] > r.n || v[1] < 1 || v[1] > r.m) { r.why = "entry out of range `" + l.substr(0, 60) + "'"; return r; }
		r.e.push_back({(int) v[0] - 1, (int) v[1] - 1, (i64) v[2]}); }
	if (pos != t.size()) { r.why = "data after the end marker"; return r; }
	r.ok = true; return r;
}
