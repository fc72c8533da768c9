// Word alignments read off the forest of a sentence pair.
#include "hgh.h"
#include <iostream>
#include <sstream>
#include <algorithm>
#include <cmath>
#include "aligner.h"
#include "lattice.h"
#include "sentence_metadata.h"
extern "C" void vs_setup() { hg_setup(); std::cerr.setstate(std::ios::failbit); }
typedef std::pair<int, int> L; struct Box { int a, b, c, d; }; // source [a,b), target [c,d)
struct Made { int head; std::vector<int> tails; std::vector<int> s, t; }; // words a rule covers itself, on both sides
static Hypergraph* G; static std::vector<Made> made; static std::vector<Box> box;
static std::string sw(int i) { return std::string("s") + char('a' + i); } static std::string tw(int i) { return std::string("t") + char('a' + i); }
static int node(const Box& b) { box.push_back(b); return G->AddNode(-TD::Convert("X"))->id_; }
// a rule that covers what its tails leave; tails in target order
static void edge(int head, const std::vector<int>& tails) {
  const Box h = box[head]; Made m; m.head = head; m.tails = tails; TRulePtr r(new TRule); r->lhs_ = -TD::Convert("X"); r->arity_ = tails.size();
  for (int i = h.a; i < h.b;) { int in = -1; for (unsigned k = 0; k < tails.size(); ++k) if (box[tails[k]].a == i) in = k; if (in < 0) { r->e_.push_back(TD::Convert(sw(i))); m.s.push_back(i); ++i; } else { r->e_.push_back(-in); i = box[tails[in]].b; } }
  for (int j = h.c; j < h.d;) { int in = -1; for (unsigned k = 0; k < tails.size(); ++k) if (box[tails[k]].c == j) in = k; if (in < 0) { r->f_.push_back(TD::Convert(tw(j))); m.t.push_back(j); ++j; } else { r->f_.push_back(-TD::Convert("X")); j = box[tails[in]].d; } }
  TailNodeVector t; for (unsigned i = 0; i < tails.size(); ++i) t.push_back(tails[i]); HG::Edge* e = G->AddEdge(r, t); e->prev_i_ = h.a; e->prev_j_ = h.b; e->i_ = h.c; e->j_ = h.d; G->ConnectEdgeToHeadNode(e->id_, head); made.push_back(m); }
static std::string print(const std::vector<std::vector<double> >& p) { std::string o; for (unsigned i = 0; i < p.size(); ++i) for (unsigned j = 0; j < p[i].size(); ++j) { double m = 0; for (unsigned k = 0; k < p.size(); ++k) m = std::max(m, p[k][j]); if (p[i][j] > 0 && p[i][j] >= m) { std::ostringstream x; x << i << '-' << j; o += (o.empty() ? "" : " ") + x.str(); } } return o; }
extern "C" void vs_harness() {
  Hypergraph g; G = &g; made.clear(); box.clear(); const int n = SLEN + vs_choice("n", 2), m = TLEN + vs_choice("m", 2); const int kids = vs_choice("kids", 4);
  // lower nodes first: one or two boxes inside the sentence pair
  std::vector<int> low; Box x = {0, 0, 0, 0}, y = x;
  if (kids) { x.a = vs_choice("a", n); x.b = x.a + 1 + vs_choice("len", n - x.a); x.c = vs_choice("c", m); x.d = x.c + 1 + vs_choice("tlen", m - x.c); if (x.b - x.a == n && x.d - x.c == m) vs_stop(); low.push_back(node(x)); }
  if (kids > 1) { y.a = vs_choice("a2", n); y.b = y.a + 1 + vs_choice("len2", n - y.a); y.c = vs_choice("c2", m); y.d = y.c + 1 + vs_choice("tlen2", m - y.c); if (y.a < x.b && x.a < y.b) vs_stop(); if (y.c < x.d && x.c < y.d) vs_stop(); if (y.c < x.c) vs_stop(); low.push_back(node(y)); }
  const Box full = {0, n, 0, m}; const int top = node(full); const std::vector<int> none;
  for (unsigned k = 0; k < low.size(); ++k) edge(low[k], none); 
  if (low.size() == 1) { edge(top, low); edge(top, none); } else if (low.size() == 2) { edge(top, low); edge(top, std::vector<int>(1, low[0])); if (kids == 3) { edge(top, std::vector<int>(1, low[1])); edge(top, none); } } else edge(top, none);
  const int E = g.edges_.size(); std::vector<double> w(E); static const double val[] = {0.5, 0.25, 0.0625}; for (int e = 0; e < E; ++e) { w[e] = val[(e * (1 + kids) + (e + 1 < E ? 0 : vs_choice("weight", 3)) + (e + 2 == E ? vs_choice("weight", 3) : 0)) % 3] * (e + 16) / 16; g.edges_[e].edge_prob_ = prob_t(w[e]); }
  Ref ref(g); const std::vector<DV>& ds = ref.node(top); std::vector<std::pair<double, int> > by; double z = 0; for (unsigned i = 0; i < ds.size(); ++i) { double p = 1; for (unsigned k = 0; k < ds[i].size(); ++k) p *= w[ds[i][k]]; z += p; by.push_back(std::make_pair(-p, i)); } std::sort(by.begin(), by.end()); for (unsigned i = 1; i < by.size(); ++i) if (by[i].first - by[i - 1].first < 1e-9) vs_stop();
  Lattice src, trg; for (int i = 0; i < n; ++i) src.push_back(std::vector<LatticeArc>(1, LatticeArc(TD::Convert(sw(i)), SparseVector<double>(), 1))); for (int j = 0; j < m; ++j) trg.push_back(std::vector<LatticeArc>(1, LatticeArc(TD::Convert(tw(j)), SparseVector<double>(), 1)));
  const int how = vs_choice("how", 5); if (how == 3) src[0].push_back(LatticeArc(TD::Convert("other"), SparseVector<double>(), 1)); if (how == 4) trg[0].push_back(LatticeArc(TD::Convert("other"), SparseVector<double>(), 1));
  std::string head; for (int i = 0; i < n; ++i) head += (i ? " " : "") + sw(i); head += " |||"; for (int j = 0; j < m; ++j) head += " " + tw(j); head += " ||| ";
  std::ostringstream o; std::string want; const int lines = how == 2 ? 1 + vs_choice("k", 3) : 1;
  if (how == 0) { std::vector<std::vector<double> > p(n, std::vector<double>(m)); for (unsigned q = 0; q < by.size(); ++q) for (unsigned k = 0; k < ds[by[q].second].size(); ++k) { const Made& r = made[ds[by[q].second][k]]; for (unsigned i = 0; i < r.s.size(); ++i) for (unsigned j = 0; j < r.t.size(); ++j) p[r.s[i]][r.t[j]] += -by[q].first / z; }
    for (int j = 0; j < m; ++j) { double b = 0; for (int i = 0; i < n; ++i) b = std::max(b, p[i][j]); for (int i = 0; i < n; ++i) if (p[i][j] != b && fabs(p[i][j] - b) < 1e-6) p[i][j] = b; for (int i = 0; i < n; ++i) for (int k = 0; k < i; ++k) if (p[i][j] == b && p[k][j] == b) { bool same = true; for (int e = 0; e < E; ++e) if (std::count(made[e].t.begin(), made[e].t.end(), j)) same &= std::count(made[e].s.begin(), made[e].s.end(), i) == std::count(made[e].s.begin(), made[e].s.end(), k); if (!same) vs_stop(); } } // exact ties of different sums depend on rounding
    want = head + print(p) + "\n"; AlignerTools::WriteAlignment(src, trg, g, &o, true, 0); vs_reach("posterior"); }
  else { for (int q = 0; q < lines && q < (int)by.size(); ++q) { std::vector<std::vector<double> > p(n, std::vector<double>(m)); for (unsigned k = 0; k < ds[by[q].second].size(); ++k) { const Made& r = made[ds[by[q].second][k]]; for (unsigned i = 0; i < r.s.size(); ++i) for (unsigned j = 0; j < r.t.size(); ++j) p[r.s[i]][r.t[j]] = 1; if (r.s.empty() && r.t.size()) vs_reach("inserted"); } want += head + print(p) + "\n"; } AlignerTools::WriteAlignment(src, trg, g, &o, how >= 3, how == 2 ? lines : 0); if (lines > 1 && by.size() > 1) vs_reach("several"); if (how >= 3) vs_reach("lattice"); }
  if (o.str() != want) { vs_note(o.str().c_str(), 0); vs_note(want.c_str(), 0); } vs_assert(o.str() == want, how == 0 ? "every target word is linked to its most probable source words" : "links join the words of the rules used");
}
