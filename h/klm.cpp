// Back-off language models: what they answer against the definition of the file they were built from.
#include "vsym.h"
#define ReadFloat ReadFloatX
#include "util/file_piece.cc"
#include <vector>
#include <map>
#include <algorithm>
#include <string>
#include <iostream>
#include <math.h>
#include <stdio.h>
#include "memfile.h"
#include "lm/model.hh"
#include "lm/config.hh"
#include "lm/left.hh"
#include "lm/partial.hh"
#include "lm/blank.hh"
#include "util/exception.hh"
#undef ReadFloat
using namespace lm::ngram; using lm::FullScoreReturn;
// numbers of the file: the text holds an index, the reader below turns it into a (symbolic) number
static std::vector<float> num;
float vs_readfloat(util::FilePiece*) asm("_ZN4util9FilePiece9ReadFloatEv");
float vs_readfloat(util::FilePiece* f) { const float t = f->ReadFloatX(); const int k = (int)-t; return k > 0 && k < (int)num.size() ? num[k] : t; }
#ifndef DECODER
extern "C" void vs_setup() { std::cerr.setstate(std::ios::failbit); }
#endif
typedef std::vector<int> W; // word numbers as in names
static const char* names[] = {"<unk>", "<s>", "</s>", "a", "b", "nowhere"};
static int NW = 5;
struct Arpa { int order; std::map<W, std::pair<float, float> > g; std::vector<std::vector<W> > by; // per order
  bool has(const W& w) const { return g.count(w); }
  float p(const W& ctx, int w) const { // ctx oldest first
    W x(ctx); x.push_back(w); if ((int)x.size() > order) x.erase(x.begin(), x.end() - order); W c(x.begin(), x.end() - 1);
    std::map<W, std::pair<float, float> >::const_iterator i = g.find(x); if (i != g.end()) return i->second.first;
    if (c.empty()) return g.find(W(1, 0))->second.first; // unknown
    std::map<W, std::pair<float, float> >::const_iterator j = g.find(c); const float b = j == g.end() ? 0.f : j->second.second; return b + p(W(c.begin() + 1, c.end()), w); }
  int longest(const W& ctx, int w) const { W x(ctx); x.push_back(w); if ((int)x.size() > order) x.erase(x.begin(), x.end() - order); while (x.size() > 1 && !has(x)) x.erase(x.begin()); return x.size(); }
};
static int serial = 0;
static float fresh(bool backoff, bool pos = false) {
#if MODEL == 0
  return backoff ? vs_fix("backoff", pos ? -4 : -64, -1, 2) : vs_fix("prob", -256, -5, 2); // positive back-offs never lift a probability above one
#else
  ++serial; const int k = serial; return pos ? -(float)(k % 5 + 1) / 8 : -(float)((k * 37) % 101 + 11) / 8;
#endif
}
static std::string id(float v) { num.push_back(v); return "-" + std::to_string(num.size() - 1); }
static void add(Arpa& a, const W& w, int style) { // style: 0 a number, 1 none given, 2 zero given, 3 positive
  const int n = w.size(); float p = fresh(false), b = 0; if (n == 1 && w[0] == 1) p = -99; if (n < a.order && style == 0) b = fresh(true); else if (n < a.order && style == 3) b = -fresh(true, true);
  a.g[w] = std::make_pair(p, b); if ((int)a.by.size() < n) a.by.resize(n); a.by[n - 1].push_back(w); }
static std::string text(const Arpa& a, const std::map<W, int>& style) {
  std::string s = "\\data\\\n"; for (int n = 1; n <= a.order; ++n) s += "ngram " + std::to_string(n) + "=" + std::to_string(a.by[n - 1].size()) + "\n"; s += "\n";
  for (int n = 1; n <= a.order; ++n) { s += "\\" + std::to_string(n) + "-grams:\n"; for (unsigned i = 0; i < a.by[n - 1].size(); ++i) { const W& w = a.by[n - 1][i]; const std::pair<float, float> v = a.g.find(w)->second; s += id(v.first) + "\t"; for (unsigned k = 0; k < w.size(); ++k) { if (k) s += " "; s += names[w[k]]; }
      const int st = style.find(w)->second; if (n < a.order && (st == 0 || st == 3)) s += "\t" + id(v.second); else if (n < a.order && st == 2) s += "\t0"; s += "\n"; } s += "\n"; }
  return s + "\\end\\\n"; }
static W w2(int a, int b) { W w; w.push_back(a); w.push_back(b); return w; }
static W w3(int a, int b, int c) { W w = w2(a, b); w.push_back(c); return w; }
static W w4(int a, int b, int c, int d) { W w = w3(a, b, c); w.push_back(d); return w; }
#if MODEL == 0
typedef ProbingModel M;
#elif MODEL == 1
typedef TrieModel M;
#elif MODEL == 2
typedef ArrayTrieModel M;
#elif MODEL == 3
typedef QuantTrieModel M;
#elif MODEL == 4
typedef QuantArrayTrieModel M;
#else
typedef RestProbingModel M;
#endif
template <class X> static bool same(const X& a, const X& b) { return a == b; }
struct Tree { int lo, hi; };
// score of the words lo..hi as a span, in every bracketing and mix of words and spans
static float span(const M& m, const std::vector<lm::WordIndex>& v, int lo, int hi, unsigned code, ChartState& st) {
  RuleScore<M> r(m, st); if (hi - lo == 1) { r.Terminal(v[lo]); return r.Finish(); }
  const int cut = lo + 1 + code % (hi - lo - 1); code /= (hi - lo - 1); const int how = code % 4; code /= 4; float s = 0;
  ChartState l, q; if (how == 0) { for (int i = lo; i < cut; ++i) r.Terminal(v[i]); } else { const float f = span(m, v, lo, cut, code / 2, l); if (how == 3) { r.NonTerminal(l, f); } else r.BeginNonTerminal(l, f); }
  if (how == 2) { for (int i = cut; i < hi; ++i) r.Terminal(v[i]); } else { const float f = span(m, v, cut, hi, code / 3, q); r.NonTerminal(q, f); }
  return s + r.Finish(); }
static void model() {
  Arpa a; a.order = ORDER; num.assign(1, 0); serial = 0; std::map<W, int> style; const int zs = vs_choice("backoffs", 4); // which contexts carry numbers
  for (int w = 0; w < NW; ++w) { const int st = w == 0 || w == 2 ? 1 : zs == 0 ? 0 : zs == 1 ? (w == 3 ? 2 : 0) : zs == 2 ? 1 : (w == 4 ? 3 : 0); style[W(1, w)] = st; add(a, W(1, w), st); }
  const W bi[] = {w2(3, 4), w2(4, 3), w2(1, 3), w2(3, 3), w2(4, 2), w2(1, 4)}; for (int k = 0; k < NBI; ++k) if (vs_choice("bigram", 2)) { const int st = zs == 2 ? (k % 2 ? 0 : 2) : zs == 1 ? 1 : 0; style[bi[k]] = st; add(a, bi[k], st); }
  a.by.resize(ORDER); int longest = 0; const W tri[] = {w3(3, 4, 3), w3(1, 3, 4), w3(3, 3, 4), w3(4, 3, 3), w3(3, 4, 2)};
  if (ORDER > 2) for (int k = 0; k < NTRI; ++k) if (a.has(W(tri[k].begin(), tri[k].end() - 1)) && vs_choice("trigram", 2)) { const int st = zs == 2 ? 1 : 0; style[tri[k]] = st; add(a, tri[k], st); longest = 3; }
  const W four[] = {w4(3, 4, 3, 4), w4(1, 3, 4, 3), w4(3, 4, 3, 3)}; if (ORDER > 3) for (int k = 0; k < 3; ++k) if (a.has(W(four[k].begin(), four[k].end() - 1)) && vs_choice("fourgram", 2)) { style[four[k]] = 1; add(a, four[k], 1); }
  if (a.by[ORDER - 1].empty()) vs_stop(); // the reader wants n-grams of every order it announces
  for (int n = 1; n < ORDER; ++n) if (a.by[n].empty()) vs_stop();
  bool blanks = false; for (int n = 3; n <= ORDER; ++n) for (unsigned i = 0; i < a.by[n - 1].size(); ++i) blanks |= !a.has(W(a.by[n - 1][i].begin() + 1, a.by[n - 1][i].end()));
  MemFile f(text(a, style)); Config c; c.messages = 0; c.show_progress = false; c.probing_multiplier = 8; c.temporary_directory_prefix = "/tmp/vs-lm-"; c.building_memory = 1 << 20; c.prob_bits = c.backoff_bits = 8; c.arpa_complain = Config::NONE; c.rest_function = Config::REST_MAX;
#if MODEL > 0
  MemFile bin; const int saved = vs_choice("saved", 2); if (saved) { c.write_mmap = bin.name; c.write_method = vs_choice("method", 2) ? Config::WRITE_MMAP : Config::WRITE_AFTER; { M built(f.name, c); } c.write_mmap = 0; c.load_method = vs_choice("load", 2) ? util::LAZY : util::READ; vs_reach("saved"); }
  const M m(saved ? bin.name : f.name, c);
#else
  const M m(f.name, c);
#endif
  std::vector<lm::WordIndex> ix(6); for (int w = 0; w < 6; ++w) { ix[w] = m.GetVocabulary().Index(names[w]); vs_assert((ix[w] == 0) == (w == 0 || w == 5), "exactly the words of the file are known"); for (int v = 0; v < w && w < 5; ++v) vs_assert(ix[v] != ix[w], "different words have different numbers"); }
  vs_assert(m.Order() == ORDER, "the order is that of the file"); vs_assert(m.GetVocabulary().BeginSentence() == ix[1] && m.GetVocabulary().EndSentence() == ix[2], "sentence boundaries");
  // every sequence of words, from the start of a sentence and from nothing
  const int start = vs_choice("from", 2); const int L = LEN; std::vector<W> hist(1, start ? W(1, 1) : W()); std::vector<State> st(1, start ? m.BeginSentenceState() : m.NullContextState()); const int step[] = {3, 4, 2, 5}; std::vector<float> sums(1, 0.f);
  for (int len = 0; len < L; ++len) { std::vector<W> nh; std::vector<State> ns; std::vector<float> nsum;
    for (unsigned h = 0; h < hist.size(); ++h) for (int k = 0; k < (len == 0 || len + 1 == L ? 4 : 2); ++k) { const int w = step[k]; State o; FullScoreReturn r = m.FullScore(st[h], ix[w], o); const int ow = w == 5 ? 0 : w; W ctx = hist[h];
        const float want = a.p(ctx, ow);
        vs_assert(r.prob == want, "the score of a word is the longest matching n-gram plus the back-offs of the longer contexts");
        vs_assert(r.ngram_length >= 1 && (blanks ? r.ngram_length >= a.longest(ctx, ow) : r.ngram_length == a.longest(ctx, ow)), "the matched length"); if (r.ngram_length == ORDER) vs_reach("longest");
        vs_assert(m.Score(st[h], ix[w], o) == want, "plain score");
        std::vector<lm::WordIndex> rc; for (int i = (int)ctx.size() - 1; i >= 0; --i) rc.push_back(ix[ctx[i]]); const lm::WordIndex* rb = rc.empty() ? 0 : &rc[0]; State o2, o3; FullScoreReturn q = m.FullScoreForgotState(rb, rb + rc.size(), ix[w], o2); vs_assert(q.prob == want && q.ngram_length == r.ngram_length, "scoring from the words alone gives the same");
        vs_assert(o == o2, "and the same state"); rc.insert(rc.begin(), ix[w]); m.GetState(&rc[0], &rc[0] + rc.size(), o3); vs_assert(o == o3, "the state of a context is the state after its last word"); bool bo = o.length < ORDER; for (int i = 0; i < o.length; ++i) bo &= o.backoff[i] == o3.backoff[i] && o.backoff[i] == o2.backoff[i]; vs_assert(bo, "with the back-offs of its contexts");
        W n = ctx; n.push_back(ow); nh.push_back(n); ns.push_back(o); nsum.push_back(sums[h] + r.prob); }
    if (len + 1 < L) { hist.swap(nh); st.swap(ns); sums.swap(nsum); } }
  if (blanks) vs_reach("blanks"); vs_reach("queries");
}
static void chart() { // spans put together in any order
  Arpa a; a.order = ORDER; num.assign(1, 0); serial = 0; std::map<W, int> style; std::vector<W> all; const int zs = vs_choice("backoffs", 3);
  for (int w = 0; w < NW; ++w) all.push_back(W(1, w));
  const W bi[] = {w2(3, 4), w2(4, 3), w2(1, 3), w2(3, 3), w2(4, 2), w2(1, 4)}; for (int k = 0; k < NBI; ++k) if (vs_choice("bigram", 2)) all.push_back(bi[k]);
  const W tri[] = {w3(3, 4, 3), w3(1, 3, 4), w3(4, 3, 3), w3(3, 3, 4), w3(3, 4, 2)}; const W four[] = {w4(3, 4, 3, 4), w4(1, 3, 4, 3), w4(3, 4, 3, 3)};
  for (int n = 3; n <= ORDER; ++n) for (int k = 0; k < (n == 3 ? NTRI : 3); ++k) { const W& t = n == 3 ? tri[k] : four[k]; if (std::find(all.begin(), all.end(), W(t.begin(), t.end() - 1)) != all.end() && vs_choice("longer", 2)) all.push_back(t); }
  for (unsigned i = 0; i < all.size(); ++i) { bool ctx = false; for (unsigned j = 0; j < all.size(); ++j) ctx |= all[j].size() == all[i].size() + 1 && W(all[j].begin(), all[j].end() - 1) == all[i]; // back-offs where a longer n-gram uses them
    const int st = !ctx || zs == 2 || (zs == 1 && i % 2) ? 1 : 0; style[all[i]] = st; add(a, all[i], st); }
  a.by.resize(ORDER);
  for (int n = 1; n < ORDER; ++n) if (a.by[n].empty()) vs_stop();
  MemFile f(text(a, style)); Config c; c.messages = 0; c.show_progress = false; c.probing_multiplier = 8; c.temporary_directory_prefix = "/tmp/vs-lm-"; c.building_memory = 1 << 20; c.arpa_complain = Config::NONE; c.rest_function = Config::REST_MAX; const M m(f.name, c);
  std::vector<lm::WordIndex> ix(6); for (int w = 0; w < 6; ++w) ix[w] = m.GetVocabulary().Index(names[w]);
  const int n = 1 + vs_choice("words", LEN); const unsigned total = n == 1 ? 1 : n == 2 ? 8 : n == 3 ? 2 * 4 * 24 : 3 * 4 * 64;
  for (int x = 0; x < (1 << n); ++x) { W ws; std::vector<lm::WordIndex> v; for (int i = 0; i < n; ++i) { const int w = (x >> i) & 1 ? 4 : 3; ws.push_back(w); v.push_back(ix[w]); } if (x % 5 == 4) { ws[n / 2] = 0; v[n / 2] = 0; }
    float want = 0; for (int i = 0; i <= n; ++i) { W ctx(1, 1); ctx.insert(ctx.end(), ws.begin(), ws.begin() + i); want += a.p(ctx, i < n ? ws[i] : 2); }
    float inner = 0; for (int i = 0; i < n; ++i) inner += a.p(W(ws.begin(), ws.begin() + i), ws[i]);
    ChartState flat; RuleScore<M> fr(m, flat); for (int i = 0; i < n; ++i) fr.Terminal(v[i]); const float fs = fr.Finish(); flat.ZeroRemaining();
#if MODEL != 5
    vs_assert(fs == inner, "a span scores what its words score from nothing");
#endif
    for (unsigned code = 0; code < total; code += STEP) { ChartState s; const float sc = span(m, v, 0, n, code, s); s.ZeroRemaining();
      vs_assert(s == flat && s.left.full == flat.left.full, "the state of a span does not depend on how it was put together"); vs_assert(sc == fs, "nor does its score"); vs_assert(s.Compare(flat) == 0 && hash_value(s) == hash_value(flat), "equal states compare and hash equal");
      ChartState top; RuleScore<M> r(m, top); r.BeginSentence(); r.NonTerminal(s, sc); r.Terminal(ix[2]); vs_assert(r.Finish() == want, "a sentence scores the sum of its words, however it was put together"); }
    if (flat.left.full) vs_reach("full"); else vs_reach("open"); }
  vs_reach("chart");
}
#ifndef DECODER
extern "C" void vs_harness() {
#ifdef CHART
  chart();
#else
  model();
#endif
}
#endif
