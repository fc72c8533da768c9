// Derivations drawn from a forest, and the translation with the most probability over all its derivations.
#include <boost/random/mersenne_twister.hpp>
#include <iostream>
#include <sstream>
#define MT19937 MT19937_of_the_repository
#include "sampler.h"
#undef MT19937
struct Gen { typedef unsigned result_type; static const bool has_fixed_range = false; unsigned min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return 0; } unsigned max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return 255; } void seed(unsigned) {} static int digits[8], used; unsigned operator()() { const int d = used < 8 ? digits[used] : 0; ++used; return 32 * d + 16; } }; // draws in the middle of each eighth
int Gen::digits[8], Gen::used;
typedef RandomNumberGenerator<Gen> Draws;
#define MT19937 Draws
#include "hgh.h"
#include "decoder/hg_sampler.cc"
#include "decoder/maxtrans_blunsom.cc"
#include <cmath>
static int fA, fB;
extern "C" void vs_setup() { hg_setup(); fA = FD::Convert("A"); fB = FD::Convert("B"); std::cerr.setstate(std::ios::failbit); }
typedef std::vector<WordID> Y;
static Y yield(const Hypergraph& g, const DV& d) { std::vector<Y> st; for (unsigned i = 0; i < d.size(); ++i) { const HG::Edge& e = g.edges_[d[i]]; const int k = e.tail_nodes_.size(); Y y; for (unsigned q = 0; q < e.rule_->e_.size(); ++q) { const WordID x = e.rule_->e_[q]; if (x > 0) y.push_back(x); else { const Y& c = st[st.size() - k - x]; y.insert(y.end(), c.begin(), c.end()); } } st.resize(st.size() - k); st.push_back(y); } return st.back(); }
static std::string tree(const Hypergraph& g, const DV& d) { std::vector<std::string> st; for (unsigned i = 0; i < d.size(); ++i) { const HG::Edge& e = g.edges_[d[i]]; const int k = e.tail_nodes_.size(); std::string y; for (unsigned q = 0; q < e.rule_->e_.size(); ++q) { const WordID x = e.rule_->e_[q]; y += (q ? " " : "") + (x > 0 ? TD::Convert(x) : st[st.size() - k - x]); } st.resize(st.size() - k); if (e.rule_->lhs_ != -TD::Convert("Goal")) y = "(X " + y + ")"; st.push_back(y); } return st.back(); }
static std::string join(const Y& y) { std::string s; for (unsigned i = 0; i < y.size(); ++i) s += (i ? " " : "") + TD::Convert(y[i]); return s; }
static bool once(const Hypergraph& g, const DV& d) { std::set<int> s; for (unsigned i = 0; i < d.size(); ++i) if (!s.insert(g.edges_[d[i]].head_node_).second) return false; return true; }
static void forest(Hypergraph& g) {
#if SHAPES
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, 2);
#endif
}
static void draws() {
  Hypergraph g; forest(g); Ref ref(g); const int goal = g.nodes_.size() - 1, E = g.edges_.size(); for (unsigned v = 0; v < g.nodes_.size(); ++v) { if (ref.node(v).empty()) vs_stop(); for (unsigned i = 0; i < ref.node(v).size(); ++i) if (!once(g, ref.node(v)[i])) vs_stop(); } // a node stands for one span: never twice in a derivation
  std::vector<double> share(E), scale(g.nodes_.size()), a(E); 
  for (unsigned v = 0; v < g.nodes_.size(); ++v) { const std::vector<int>& in = g.nodes_[v].in_edges_; const int m = in.size(); scale[v] = v % 2 ? 2 : 0.25; if (m > 4) vs_stop(); static const int parts[4][2][4] = {{{8}, {8}}, {{1, 7}, {4, 4}}, {{1, 2, 5}, {4, 1, 3}}, {{2, 2, 2, 2}, {1, 4, 1, 2}}}; const int p = m > 1 ? vs_choice("parts", 2) : 0, turn = m > 1 ? vs_choice("turn", 2) : 0;
    for (int k = 0; k < m; ++k) { const int e = in[k]; share[e] = parts[m - 1][p][(k + turn) % m] / 8.; double w = share[e] * scale[v]; for (unsigned t = 0; t < g.edges_[e].tail_nodes_.size(); ++t) w /= scale[g.edges_[e].tail_nodes_[t]]; g.edges_[e].edge_prob_ = prob_t(w); a[e] = vs_fix("a", -9, 9, 1); g.edges_[e].feature_values_.set_value(fA, a[e]); if (e % 2) g.edges_[e].feature_values_.set_value(fB, 1); } }
  if (vs_choice("goal", 2)) for (unsigned i = 0; i < g.nodes_[goal].in_edges_.size(); ++i) { HG::Edge& e = g.edges_[g.nodes_[goal].in_edges_[i]]; TRulePtr r(new TRule(*e.rule_)); r->lhs_ = -TD::Convert("Goal"); e.rule_ = r; }
  const std::vector<DV>& ds = ref.node(goal); std::map<Y, int> at; for (unsigned i = 0; i < ds.size(); ++i) at[yield(g, ds[i])] = i; if (at.size() != ds.size()) vs_stop();
  int need = 0; for (unsigned i = 0; i < ds.size(); ++i) { int c = 0; for (unsigned k = 0; k < ds[i].size(); ++k) c += g.nodes_[g.edges_[ds[i][k]].head_node_].in_edges_.size() > 1; need = std::max(need, c); } if (need > DRAWS) vs_stop(); if (ds.size() < 2) vs_stop();
  int all = 1; for (int i = 0; i < need; ++i) all *= 8; std::vector<int> n(ds.size()), nt(ds.size()); const bool trees = vs_choice("trees", 2); std::map<std::string, int> tat; for (unsigned i = 0; i < ds.size(); ++i) tat[tree(g, ds[i])] = i; Draws rng(1);
  for (int s = 0; s < all; ++s) { int x = s; for (int i = 0; i < 8; ++i) { Gen::digits[i] = i < need ? x % 8 : 0; x /= 8; } Gen::used = 0;
    if (trees) { std::vector<std::string> t; HypergraphSampler::sample_trees(g, 1, &rng, &t); const bool in = t.size() == 1 && tat.count(t[0]); vs_assert(in, "a sampled tree is a derivation of the forest"); if (!in) return; ++n[tat[t[0]]]; }
    else { std::vector<HypergraphSampler::Hypothesis> h; HypergraphSampler::sample_hypotheses(g, 1, &rng, &h); const bool in = h.size() == 1 && at.count(h[0].words); vs_assert(in, "a sampled translation is one of the forest's"); if (!in) return; const int i = at[h[0].words]; ++n[i];
      if (n[i] == 1) { double fa = 0, fb = 0, p = 0; for (unsigned k = 0; k < ds[i].size(); ++k) { fa += a[ds[i][k]]; fb += ds[i][k] % 2; p += log(g.edges_[ds[i][k]].edge_prob_); } vs_assert(h[0].fmap.value(fA) == fa && h[0].fmap.value(fB) == fb, "a sample carries the features of its derivation"); vs_assert(fabs(log(h[0].model_score) - p) < 1e-9, "a sample carries the score of its derivation"); } }
    vs_assert(Gen::used <= need, "one draw per ambiguous node of the derivation"); }
  for (unsigned i = 0; i < ds.size(); ++i) { double p = 1; for (unsigned k = 0; k < ds[i].size(); ++k) p *= share[ds[i][k]]; vs_assert(n[i] == p * all, "each derivation is drawn in proportion to its weight"); } if (need > 1) vs_reach("several draws"); if (trees) vs_reach("trees");
  // several samples at once are as good as one after the other
  if (!trees) { for (int i = 0; i < 8; ++i) Gen::digits[i] = (3 * i + 1) % 8; std::vector<HypergraphSampler::Hypothesis> h, q(3); Gen::used = 0; HypergraphSampler::sample_hypotheses(g, 3, &rng, &h); vs_assert(h.size() == 3, "as many samples as asked for"); Gen::used = 0; for (int i = 0; i < 3; ++i) { std::vector<HypergraphSampler::Hypothesis> x; HypergraphSampler::sample_hypotheses(g, 1, &rng, &x); vs_assert(x[0].words == h[i].words && x[0].fmap.value(fA) == h[i].fmap.value(fA), "samples do not depend on each other"); } } }
static void most() { // the translation whose derivations together weigh most
  Hypergraph g; forest(g); const int pre = g.nodes_.size() - 1, E = g.edges_.size(), pat = 1 + vs_choice("words", 3); { Ref r(g); for (int v = 0; v <= pre; ++v) if (r.node(v).empty()) vs_stop(); } static const double val[] = {0.5, 0.125, 0.375}; std::vector<double> w(E);
  for (int k = 0; k < E; ++k) { HG::Edge& e = g.edges_[k]; TRulePtr r(new TRule(*e.rule_)); if (r->arity_ && k % 2) r->e_.erase(r->e_.begin()); else r->e_[0] = TD::Convert(word((k * k) % pat)); if (r->arity_ == 2 && k % 3 == 0) std::swap(r->e_[r->e_.size() - 1], r->e_[r->e_.size() - 2]); e.rule_ = r; w[k] = val[vs_choice("weight", 3)]; e.edge_prob_ = prob_t(w[k]); }
  g.AddNode(-TD::Convert("Goal")); std::vector<int> t(1, pre); add_edge(g, pre + 1, t, "w"); { HG::Edge& e = g.edges_.back(); TRulePtr r(new TRule("[Goal] ||| [X,1] ||| [1]")); e.rule_ = r; e.edge_prob_ = prob_t(1); }
  Ref ref(g); const std::vector<DV>& ds = ref.node(pre + 1); std::map<std::string, double> sum; for (unsigned i = 0; i < ds.size(); ++i) { double p = 1; for (unsigned k = 0; k + 1 < ds[i].size(); ++k) p *= w[ds[i][k]]; sum[join(yield(g, ds[i]))] += p; } double best = 0, single = 0; for (std::map<std::string, double>::iterator i = sum.begin(); i != sum.end(); ++i) best = std::max(best, i->second);
  for (unsigned i = 0; i < ds.size(); ++i) { double p = 1; for (unsigned k = 0; k + 1 < ds[i].size(); ++k) p *= w[ds[i][k]]; if (p > single) single = p; } const int beam = vs_choice("beam", 2) ? 1000 : 1 + vs_choice("narrow", 2);
  std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); Hack::MaxTrans(g, beam); std::cout.rdbuf(old); std::string s = o.str(); const bool line = s.size() && s[s.size() - 1] == '\n'; vs_assert(line, "one translation is printed"); if (!line) return; s.resize(s.size() - 1);
  const bool in = sum.count(s); vs_assert(in, "the translation printed is one of the forest's"); if (!in) return; if (beam > 2) { vs_assert(sum[s] >= best - 1e-9, "no translation has more probability over its derivations"); if (ds.size() > sum.size() && sum.size() > 1) vs_reach("ambiguous"); } else vs_reach("narrow"); }
extern "C" void vs_harness() {
#if WHAT == 0
  draws();
#else
  most();
#endif
}
