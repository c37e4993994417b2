// Reference model: exact dense linear algebra modulo p, parsers, SHA-256; independent of the code under test.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
typedef std::vector<u32> Row;
struct Dense {
	int n = 0, m = 0; u64 p = 2; std::vector<u32> a;
	Dense() {} Dense(int n_, int m_, u64 p_) : n(n_), m(m_), p(p_), a((size_t) n_ * m_, 0) {}
	u32 &at(int i, int j) { return a[(size_t) i * m + j]; }
	u32 at(int i, int j) const { return a[(size_t) i * m + j]; }
	bool operator==(const Dense &o) const { return n == o.n && m == o.m && a == o.a; }
};
u32 nrm(i64 x, u64 p);
u32 inv_mod(u32 a, u64 p);
Dense from_mat(const Mat &M, u64 p);
// canonical RREF in place; returns pivot columns
std::vector<int> rref(Dense &D);
int rank_of(Dense D);
Dense mul(const Dense &A, const Dense &B);
Dense transpose(const Dense &A);
// row space membership against an RREF'd basis
struct Space { Dense R; std::vector<int> piv; explicit Space(const Dense &A); int rank() const { return piv.size(); } bool contains(const u32 *v) const; };
std::string sha256_hex(const std::string &data);
std::string sha256_hex(const std::string &data, size_t at, const std::string &block, u64 count);
// reference SMS/MM reader; returns false if the text is not a well-formed complete matrix file
struct Parsed { bool ok = false; int n = 0, m = 0; std::vector<Entry> e; std::string why; };
Parsed parse_sms_strict(const std::string &text);
