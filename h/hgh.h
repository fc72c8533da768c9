// Small symbolic hypergraphs and a brute-force reference over their derivations.
#pragma once
#include "vsym.h"
#include <vector>
#include <string>
#include <map>
#include <set>
#include "hg.h"
#include "trule.h"
#include "tdict.h"
#include "fdict.h"
#include "verbose.h"
typedef std::vector<int> DV;     // multiset of edge ids of a derivation in post-order (children left to right, then the edge)
struct Shape { int n; std::vector<std::pair<int, std::vector<int> > > e; }; // edges: head, tails
// All derivations of every node, by edge id.
struct Ref {
  const Hypergraph& g; std::vector<std::vector<DV> > d; std::vector<char> done;
  explicit Ref(const Hypergraph& h) : g(h), d(h.nodes_.size()), done(h.nodes_.size(), 0) {}
  const std::vector<DV>& node(int v) {
    if (done[v]) return d[v];
    done[v] = 1; std::vector<DV> r;
    for (unsigned e = 0; e < g.edges_.size(); ++e) if (g.edges_[e].head_node_ == v) {
      std::vector<DV> acc(1);
      for (unsigned k = 0; k < g.edges_[e].tail_nodes_.size(); ++k) {
        const std::vector<DV> sub = node(g.edges_[e].tail_nodes_[k]); std::vector<DV> nx;
        for (unsigned a = 0; a < acc.size(); ++a) for (unsigned b = 0; b < sub.size(); ++b) { DV x = acc[a]; x.insert(x.end(), sub[b].begin(), sub[b].end()); nx.push_back(x); }
        acc.swap(nx);
      }
      for (unsigned a = 0; a < acc.size(); ++a) { acc[a].push_back(e); r.push_back(acc[a]); }
    }
    d[v] = r; return d[v];
  }
};
// a rule whose target side is a word of its own followed by its arguments
static inline TRulePtr rule_for(const std::string& w, int arity, bool swap = false) {
  TRulePtr r(new TRule); r->lhs_ = -TD::Convert("X"); r->arity_ = arity;
  r->e_.push_back(TD::Convert(w)); r->f_.push_back(TD::Convert("f" + w));
  for (int i = 0; i < arity; ++i) { r->e_.push_back(swap ? -(arity - 1 - i) : -i); r->f_.push_back(-TD::Convert("X")); }
  return r;
}
static inline HG::Edge* add_edge(Hypergraph& g, int head, const std::vector<int>& tails, const std::string& w) {
  TailNodeVector t; for (unsigned i = 0; i < tails.size(); ++i) t.push_back(tails[i]);
  HG::Edge* e = g.AddEdge(rule_for(w, tails.size()), t);
  g.ConnectEdgeToHeadNode(e->id_, head);
  return e;
}
static inline std::string word(int i) { return std::string("w") + char('a' + i); }
// the words and fixed ids used by the harness, created before forking
static inline void hg_setup() { SetSilent(true); for (int i = 0; i < 12; ++i) { TD::Convert(word(i)); TD::Convert("f" + word(i)); } TD::Convert("X"); }
// Topologically ordered hypergraph: node i only has edges from tails < i; the
// structure (heads, arities, tails) is a decision of the solver.
static inline void sym_hg(Hypergraph& g, int n, int m, int maxar) {
  for (int i = 0; i < n; ++i) g.AddNode(-TD::Convert("X"));
  int lo = 0;
  for (int k = 0; k < m; ++k) {
    int left = m - k; int hmax = n - 1;
    int h = lo + vs_choice("head", hmax - lo + 1); lo = h;  // heads in order: the edge order is a symmetry here
    if (left == 1) vs_assume(h == n - 1);
    int ar = h == 0 ? 0 : vs_choice("arity", maxar + 1);
    std::vector<int> t; for (int a = 0; a < ar; ++a) t.push_back(vs_choice("tail", h));
    add_edge(g, h, t, word(k));
  }
}
static const Shape kShapes[] = {
  {3, {{0, {}}, {0, {}}, {1, {0}}, {1, {}}, {2, {0, 1}}, {2, {1, 1}}}},            // shared tail, repeated tail
  {4, {{0, {}}, {0, {}}, {1, {}}, {1, {}}, {2, {0, 1}}, {2, {1, 0}}, {3, {2}}}},   // two orders, unary goal
  {4, {{0, {}}, {1, {0}}, {1, {0}}, {2, {1}}, {2, {1}}, {3, {2}}, {3, {0}}}},      // lattice with a shortcut
  {3, {{0, {}}, {0, {}}, {1, {0, 0}}, {2, {1, 0}}, {2, {0}}, {2, {}}}},            // repeated tail below, nullary goal edge
  {5, {{0, {}}, {1, {}}, {1, {}}, {2, {0, 1}}, {3, {1}}, {3, {2}}, {4, {3, 2}}, {4, {3}}}},
  {4, {{0, {}}, {1, {}}, {1, {}}, {2, {}}, {3, {0, 1, 2}}, {3, {2, 1, 1}}}}                         // three tails
};
static inline void shape_hg(Hypergraph& g, int s) {
  const Shape& S = kShapes[s];
  for (int i = 0; i < S.n; ++i) g.AddNode(-TD::Convert("X"));
  for (unsigned k = 0; k < S.e.size(); ++k) add_edge(g, S.e[k].first, S.e[k].second, word(k));
}
static inline void check_wellformed(const Hypergraph& g, const char* what) {
  const int N = g.nodes_.size(), E = g.edges_.size(); bool ok = true;
  std::vector<std::multiset<int> > in(N), out(N);
  for (int i = 0; i < E && ok; ++i) {
    const HG::Edge& e = g.edges_[i]; if (e.id_ != i || e.head_node_ < 0 || e.head_node_ >= N) { ok = false; break; }
    in[e.head_node_].insert(i);
    for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) { int t = e.tail_nodes_[k]; if (t < 0 || t >= N || t >= e.head_node_) { ok = false; break; } out[t].insert(i); }
  }
  for (int i = 0; i < N && ok; ++i) {
    const HG::Node& n = g.nodes_[i];
    if (n.id_ != i) ok = false;
    if (std::multiset<int>(n.in_edges_.begin(), n.in_edges_.end()) != in[i]) ok = false;
    if (std::multiset<int>(n.out_edges_.begin(), n.out_edges_.end()) != out[i]) ok = false;
  }
  vs_assert(ok, what);
}
// derivations as sequences of rule words: comparable across renumberings
static inline std::multiset<std::string> derivs(const Hypergraph& g, int v) {
  Ref r(g); const std::vector<DV>& d = r.node(v); std::multiset<std::string> o;
  for (unsigned i = 0; i < d.size(); ++i) { std::string s; for (unsigned k = 0; k < d[i].size(); ++k) s += TD::Convert(g.edges_[d[i][k]].rule_->e_[0]) + std::string(" "); o.insert(s); }
  return o;
}

// every node derivable, every node used: the graphs a parser builds
static inline bool all_derivable(const Hypergraph& g) { for (unsigned i = 0; i < g.nodes_.size(); ++i) if (g.nodes_[i].in_edges_.empty()) return false; return true; }
static inline bool all_used(const Hypergraph& g) { for (unsigned i = 0; i + 1 < g.nodes_.size(); ++i) if (g.nodes_[i].out_edges_.empty()) return false; return true; }
// log weights on a grid: products are exact sums of dyadics
static inline void sym_probs(Hypergraph& g, std::vector<double>* lw, int lo, int hi, int scale) {
  lw->clear();
  for (unsigned i = 0; i < g.edges_.size(); ++i) { double x = vs_fix("logp", lo, hi, scale); lw->push_back(x); g.edges_[i].edge_prob_.logeq(x); }
}
static inline double score(const DV& d, const std::vector<double>& lw) { double s = 0; for (unsigned i = 0; i < d.size(); ++i) s += lw[d[i]]; return s; }
static inline bool has(const DV& d, int e) { for (unsigned i = 0; i < d.size(); ++i) if (d[i] == e) return true; return false; }
// word yield of a derivation (every rule puts its word before its arguments, in order)
static inline void yield_of(const Hypergraph& g, const DV& d, std::vector<WordID>* out) {
  // post-order of ids; rebuild with a stack
  std::vector<std::vector<WordID> > st;
  for (unsigned i = 0; i < d.size(); ++i) {
    const HG::Edge& e = g.edges_[d[i]]; const int k = e.tail_nodes_.size(); std::vector<WordID> y(1, e.rule_->e_[0]);
    for (int a = k; a > 0; --a) { const std::vector<WordID>& c = st[st.size() - a]; y.insert(y.end(), c.begin(), c.end()); }
    st.resize(st.size() - k); st.push_back(y);
  }
  *out = st.back();
}
