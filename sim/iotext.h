// Rendering of well-formed matrix texts, and a reference reader for arbitrary bytes.
#pragma once
#include "harness.h"
struct Text { std::string text; std::vector<Entry> listed; int n, m; };
void gen_text(Rng &r, Spec &s, const char *pfx, bool plain = false);
Text render(const Mat &M, u64 prime, const Spec &s, const char *pfx);
std::string damage(std::string t, const Spec &s, const char *pfx);     // faults "<pfx>.txt*"
void gen_damage(Rng &r, Spec &s, const char *pfx, int count);
enum RefStatus { REF_OK, REF_FAIL, REF_SKIP };
struct RefParse { RefStatus st = REF_FAIL; std::string why; int n = 0, m = 0; bool mm = false; std::vector<Entry> e; };
RefParse ref_parse(const std::string &bytes, bool values, u64 p);
std::string delivered(const std::string &text, const StreamPolicy &p);  // bytes a reader sees before end or error
std::string listing(const std::string &t);
