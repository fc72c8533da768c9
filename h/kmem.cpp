// Bit-packed storage of the language model.
#include "vsym.h"
#include <vector>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <sstream>
#include <iostream>
#include <fstream>
#include <map>
#include <algorithm>
#include <limits>
#include <math.h>
#define private public
#define protected public
#include "util/bit_packing.hh"
#include "lm/bhiksha.hh"
#include "lm/trie.hh"
#include "lm/quantize.hh"
#include "lm/blank.hh"
#include "lm/config.hh"
#undef private
#undef protected
using namespace util;
typedef std::vector<uint64_t> V64;
static uint64_t ones(int l) { return (1ULL << l) - 1; }
static void ints() { // three integers next to each other, written in any order
  static const int L57[] = {1, 3, 8, 13, 25, 31, 32, 33, 56, 57}, L25[] = {1, 3, 7, 8, 9, 16, 24, 25};
  const int is25 = vs_choice("25", 2); int len[3]; const int off0 = vs_choice("offset", OFFS);
  for (int i = 0; i < 3; ++i) len[i] = i == 1 ? (is25 ? L25[vs_choice("length", 8)] : L57[vs_choice("length", 10)]) : (is25 ? 25 : 57);
  if (vs_choice("narrow", 2)) { len[0] = 5; len[2] = 11; }
  unsigned char mem[48]; memset(mem, 0, sizeof mem); uint64_t v[3], off[3]; uint64_t o = off0;
  for (int i = 0; i < 3; ++i) { v[i] = vs_uint("value", 0, ones(len[i])); off[i] = o; o += len[i]; }
  const int rot = 2 * vs_choice("order", 2);
  for (int k = 0; k < 3; ++k) { const int i = (k + rot) % 3; if (is25) WriteInt25(mem, off[i], len[i], v[i]); else WriteInt57(mem, off[i], len[i], v[i]); }
  bool ok = true; for (int i = 0; i < 3; ++i) ok &= (is25 ? ReadInt25(mem, off[i], len[i], ones(len[i])) : ReadInt57(mem, off[i], len[i], ones(len[i]))) == v[i];
  vs_assert(ok, "integers stored side by side read back");
  bool clean = true; for (unsigned b = 0; b < sizeof mem; ++b) for (int k = 0; k < 8; ++k) if (8 * b + k < (unsigned)off0 || 8 * b + k >= o) clean &= ((mem[b] >> k) & 1) == 0;
  vs_assert(clean, "no bit outside the fields is set"); vs_reach("integers");
}
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static void floats() { // a log probability and a back-off weight as the trie stores them
  const int off = vs_choice("offset", OFFS), L = 1 + 4 * vs_choice("word bits", 3); unsigned char mem[48]; memset(mem, 0, sizeof mem); const uint64_t w = vs_uint("word", 0, ones(L)), nx = vs_uint("next", 0, ones(20));
  const float p = vs_float("prob"), b = vs_float("backoff"); vs_assume(bits(p) >> 31); vs_assume(p == p); vs_assume(b == b); // numbers
  WriteInt57(mem, off, L, w); lm::ngram::DontQuantize q; lm::ngram::DontQuantize::MiddlePointer m(q, 0, BitAddress(mem, off + L)); m.Write(p, b); WriteInt57(mem, off + L + lm::ngram::DontQuantize::MiddleBits(lm::ngram::Config()), 20, nx);
  const bool a = bits(m.Prob()) == bits(p), c = bits(m.Backoff()) == bits(b), d = ReadInt57(mem, off, L, ones(L)) == w, e = ReadInt57(mem, off + L + 63, 20, ones(20)) == nx;
  vs_assert(a && c && d && e, "probability, back-off, word and pointer of an entry read back");
  unsigned char m2[32]; memset(m2, 0, sizeof m2); lm::ngram::DontQuantize::LongestPointer l(q, BitAddress(m2, off)); l.Write(p); WriteInt57(m2, off + 31, 20, nx); const bool x = bits(l.Prob()) == bits(p), y = ReadInt57(m2, off + 31, 20, ones(20)) == nx; vs_assert(x && y, "the probability of a longest n-gram reads back");
  float s = p; UnsetSign(s); const bool u = bits(s) == (bits(p) & 0x7fffffffu); SetSign(s); const bool t = bits(s) == bits(p); vs_assert(u && t, "the sign bit is cleared and set alone"); vs_reach("floats");
}
static void width() { const uint64_t v = vs_uint("max", 0, ~0ULL); const int r = RequiredBits(v); vs_assert(r <= 64, "width in range"); vs_assert(r == 64 ? (v >> 63) == 1 : (v >> r) == 0, "the width holds the largest value"); vs_assert(r == 0 ? v == 0 : (v >> (r - 1)) != 0, "the width is not larger than needed");
  if (r <= 57) { BitsMask m = BitsMask::ByMax(v); vs_assert(m.bits == r && m.mask == ones(r), "mask of a width"); } vs_reach("width"); }
// pointers into the next order: increasing values written once, ranges read back
template <class B> static void next(bool array) {
  using namespace lm::ngram; Config cfg; static const int CB[] = {0, 2, 64, 1, 3, 22}; cfg.pointer_bhiksha_bits = CB[vs_choice("bits", array ? (EN > 2 ? 6 : 3) : 1)]; const int n = 1 + vs_choice("entries", EN); const uint64_t spread = vs_choice("large", 2) ? 64 * 40 : 7;
  static const int MUL[] = {1000, 1, 4}; const uint64_t claim = array ? (uint64_t)(n + 1) * MUL[vs_choice("assumed entries", EN > 2 ? 3 : 2)] : n + 1; // the table is sized for this many entries
  V64 val(n + 1); const uint64_t top = spread; val[0] = 0; for (int i = 1; i <= n; ++i) { val[i] = i == n ? top : vs_uint("next", 0, top); vs_assume(val[i] >= val[i - 1]); }
  const uint64_t size = B::Size(claim, top, cfg); const int total = B::InlineBits(claim, top, cfg) + 9; std::vector<unsigned char> mem(size + ((n + 2) * total) / 8 + 32, 0); unsigned char* base = &mem[array ? n % 2 : 0];
  B b(base, claim, top, cfg); vs_assert(b.InlineBits() == B::InlineBits(claim, top, cfg), "width of the inline part"); unsigned char* bits_ = base + size;
  for (int i = 0; i <= n; ++i) { WriteInt57(bits_, i * total, 9, 257 + i); b.WriteNext(bits_, i * total + 9, i, val[i]); } b.FinishedLoading(cfg);
  const int i = vs_choice("at", n); lm::ngram::trie::NodeRange r; b.ReadNext(bits_, i * total + 9, i, total, r); vs_assert(r.begin == val[i] && r.end == val[i + 1], "the range of successors of an entry reads back");
  vs_assert(ReadInt57(bits_, i * total, 9, ones(9)) == 257u + i, "the word beside it is untouched");
  if (array) { B c(base, claim, top, cfg); lm::ngram::trie::NodeRange q; c.ReadNext(bits_, i * total + 9, i, total, q); vs_assert(q.begin == val[i] && q.end == val[i + 1], "the same range from the loaded table"); vs_assert(base[0] == 0 && base[1] == cfg.pointer_bhiksha_bits, "the header records the width"); vs_reach("array"); } else vs_reach("direct");
}
// words of one trie node: found exactly when stored
static void words() {
  using namespace lm::ngram; using namespace lm::ngram::trie; Config cfg; const int n = 1 + vs_choice("entries", EN), maxv = EN > 2 ? 11 : 7; const int lead = vs_choice("before", 2), trail = n < 2 || EN > 2 ? (int)vs_choice("after", 2) : 1 - lead; const int N = n + lead + trail;
  std::vector<unsigned char> mem(BitPackedLongest::Size(31, N, maxv) + 8, 0); BitPackedLongest l; l.Init(&mem[0], 31, maxv); std::vector<int> w; DontQuantize q; std::vector<float> p;
  if (lead) { w.push_back(maxv); } for (int i = 0; i < n; ++i) { const int x = vs_int("word", 0, maxv); if (i) vs_assume(x > w[lead + i - 1]); w.push_back(vs_concrete(x)); } if (trail) w.push_back(0);
  for (int i = 0; i < N; ++i) { p.push_back(vs_float("prob")); vs_assume(bits(p[i]) >> 31); vs_assume(p[i] == p[i]); DontQuantize::LongestPointer(q, l.Insert(w[i])).Write(p[i]); }
  NodeRange r; r.begin = lead; r.end = lead + n; const int key = vs_int("key", 0, maxv); BitAddress a = l.Find(key, r); int at = -1; for (int i = lead; i < lead + n; ++i) if (w[i] == key) at = i;
  vs_assert((a.base != NULL) == (at >= 0), "a word is found exactly when it is stored in the range"); if (at >= 0) { vs_assert(bits(DontQuantize::LongestPointer(q, a).Prob()) == bits(p[at]), "with its probability"); vs_reach("found"); } else vs_reach("absent");
  NodeRange none; none.begin = none.end = lead; vs_assert(l.Find(key, none).base == NULL, "nothing is found in an empty range");
}
// quantised values: the nearest centre, and zero kept apart
static void quant() {
  using namespace lm::ngram; Config cfg; cfg.prob_bits = 2; cfg.backoff_bits = 2 + vs_choice("backoff bits", 2); const int n = 1 + vs_choice("values", EN); std::vector<unsigned char> mem(SeparatelyQuantize::Size(3, cfg) + 8, 0); SeparatelyQuantize q; q.SetupMemory(&mem[0], 3, cfg);
  std::vector<float> pr, bo; for (int i = 0; i < n; ++i) { pr.push_back(-(float)vs_concrete(vs_int("prob", 0, EN > 2 ? 3 : 2))); bo.push_back((float)vs_concrete(vs_int("backoff", -3, -1))); }
  std::vector<float> p0 = pr, b0 = bo; q.Train(2, pr, bo); const SeparatelyQuantize::Bins* t = q.GetTables(0); const float* pc = t[0].begin_; const float* bc = t[1].begin_; const int P = 1 << cfg.prob_bits, B = 1 << cfg.backoff_bits;
  for (int i = 1; i < P; ++i) vs_assert(pc[i - 1] <= pc[i], "centres of probabilities in order"); for (int i = 3; i < B; ++i) vs_assert(bc[i - 1] <= bc[i], "centres of back-offs in order");
  const int at = vs_choice("at", n), zero = vs_choice("zero", 3); const float b = zero == 0 ? b0[at] : zero == 1 ? kNoExtensionBackoff : kExtensionBackoff; unsigned char cell[24]; memset(cell, 0, sizeof cell); const int off = vs_choice("offset", 2) * 5; SeparatelyQuantize::MiddlePointer m(q, 0, BitAddress(cell, off)); m.Write(p0[at], b);
  const float gp = m.Prob(), gb = m.Backoff(); bool in = false, best = true; for (int i = 0; i < P; ++i) { in |= pc[i] == gp; if (pc[i] > -100) best &= !(fabsf(pc[i] - p0[at]) < fabsf(gp - p0[at])); } vs_assert(in && best, "a probability becomes the nearest centre");
  if (zero) { vs_assert(gb == 0 && bits(gb) == bits(b), "a zero back-off stays the zero it was"); vs_reach("zero"); }
  else { bool bi = false, bb = true; for (int i = 2; i < B; ++i) { bi |= bc[i] == gb; if (bc[i] > -100) bb &= !(fabsf(bc[i] - b) < fabsf(gb - b)); } vs_assert(bi && bb, "a back-off becomes the nearest centre"); vs_reach("nearest"); }
  if (n <= P) { bool ex = true; for (int i = 0; i < n; ++i) { bool s = false; for (int j = 0; j < P; ++j) s |= pc[j] == p0[i]; ex &= s; } vs_assert(ex, "with a centre for every value nothing is lost"); vs_reach("exact"); }
}
extern "C" void vs_harness() {
#ifdef QUANT
  quant();
#else
  switch (WHAT == 6 ? (int)vs_choice("what", 6) : WHAT) { case 0: ints(); break; case 1: floats(); break; case 2: width(); break; case 3: next<lm::ngram::trie::DontBhiksha>(false); break; case 4: next<lm::ngram::trie::ArrayBhiksha>(true); break; default: words(); }
#endif
}
