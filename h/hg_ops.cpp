// Restructuring: topological sort, edge pruning, subsets, union.
#include "hgh.h"
#include "viterbi.h"
#include "hg_union.h"
extern "C" void vs_setup() { hg_setup(); }
static std::string ename(const HG::Edge& e) { return TD::Convert(e.rule_->e_[0]); }
// derivations whose edges all satisfy a mask
static std::multiset<std::string> masked(const Hypergraph& g, const std::vector<bool>& keep) {
  Ref r(g); const std::vector<DV>& d = r.node(g.nodes_.size() - 1); std::multiset<std::string> o;
  for (unsigned i = 0; i < d.size(); ++i) { bool ok = true; std::string s; for (unsigned k = 0; k < d[i].size(); ++k) { ok &= keep[d[i][k]]; s += ename(g.edges_[d[i][k]]) + " "; } if (ok) o.insert(s); }
  return o;
}
static void check_weights(const Hypergraph& g, const std::map<std::string, int>& id, const std::vector<double>& lw) {
  for (unsigned i = 0; i < g.edges_.size(); ++i) { const HG::Edge& e = g.edges_[i]; const int k = id.find(ename(e))->second;
    vs_assert(log(e.edge_prob_) == lw[k], "restructuring keeps the weight of an edge");
    vs_assert(e.feature_values_.value(1) == lw[k], "restructuring keeps the features of an edge");
    vs_assert(e.i_ == k && e.j_ == k + 1 && e.prev_i_ == k + 2 && e.prev_j_ == k + 3, "restructuring keeps the spans of an edge"); }
}
// union of two single edges that may differ in one respect
static void union_pair() {
  Hypergraph g[2]; const double v[2] = {vs_fix("feature", -20, 20, 1), vs_fix("feature", -20, 20, 1)};
  const int diff = vs_choice("difference", 6); std::vector<int> t0(2, 0), t1(2, 1); t0[1] = 1; t1[1] = 0; std::vector<int> l;
  for (int s = 0; s < 2; ++s) { Hypergraph& x = g[s];
    const int a = s && diff == 5 ? 1 : 0; // node numbers do not matter, identities do
    for (int i = 0; i < 3; ++i) { x.AddNode(-TD::Convert("X")); x.nodes_.back().node_hash = 100 + (i < 2 ? i ^ a : i); }
    add_edge(x, 0, l, word(a)); add_edge(x, 1, l, word(1 ^ a)); HG::Edge* e = add_edge(x, 2, a ? t1 : t0, word(4));
    e->feature_values_.set_value(1, v[s]); e->feature_values_.set_value(2, 3);
    TRulePtr r(new TRule(*e->rule_)); if (s && diff == 1) r->f_[0] = TD::Convert(word(5)); if (s && diff == 2) r->e_[0] = TD::Convert(word(5)); e->rule_ = r;
    if (s && diff == 3) { e->tail_nodes_[1] = 0; } if (s && diff == 4) e->feature_values_.set_value(3, 0.5);
    x.TopologicallySortNodesAndEdges(2); }
  const bool same = (diff == 0 || diff == 5) && v[0] == v[1];
  Hypergraph out = g[0]; HG::Union(g[1], &out);
  check_wellformed(out, "the union is well formed");
  vs_assert(out.nodes_.size() == 3, "the union identifies equal nodes"); const Hypergraph::Node& goal = out.nodes_.back();
  vs_assert(goal.in_edges_.size() == (same ? 1 : 2), "the union merges two edges exactly when they are the same rule with the same features over the same antecedents");
  if (!same) { int n = 0; for (unsigned i = 0; i < 2; ++i) { const double x = out.edges_[goal.in_edges_[i]].feature_values_.value(1); if (x == v[0]) n |= 1; if (x == v[1]) n |= 2; } vs_assert(n == 3, "the union keeps the features of both edges"); vs_reach("both"); }
}
extern "C" void vs_harness() {
  Hypergraph g;
#ifdef SHAPES
  if (vs_choice("pair", 2)) return union_pair();
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, AR);
#endif
  const int N = g.nodes_.size(), E = g.edges_.size();
  std::vector<double> lw; sym_probs(g, &lw, -20, 20, 1); std::map<std::string, int> id;
  for (int i = 0; i < E; ++i) { HG::Edge& e = g.edges_[i]; e.feature_values_.set_value(1, lw[i]); e.i_ = i; e.j_ = i + 1; e.prev_i_ = i + 2; e.prev_j_ = i + 3; id[ename(e)] = i; }
  for (int i = 0; i < N; ++i) { g.nodes_[i].node_hash = 100 + i; g.nodes_[i].cat_ = -TD::Convert(word(i)); }
  const std::multiset<std::string> all = derivs(g, N - 1);
  const int op = vs_choice("op", 5);
  if (op == 0) { // permute the nodes (goal included), then sort
    std::vector<int> perm(N), left; for (int i = 0; i < N; ++i) left.push_back(i);
    for (int i = 0; i < N; ++i) { int k = vs_choice("perm", left.size()); perm[i] = left[k]; left.erase(left.begin() + k); }
    Hypergraph h; h.nodes_.resize(N); for (int i = 0; i < N; ++i) { h.nodes_[perm[i]] = g.nodes_[i]; h.nodes_[perm[i]].id_ = perm[i]; }
    h.edges_ = g.edges_; for (int i = 0; i < E; ++i) { h.edges_[i].head_node_ = perm[g.edges_[i].head_node_]; for (unsigned k = 0; k < h.edges_[i].tail_nodes_.size(); ++k) h.edges_[i].tail_nodes_[k] = perm[g.edges_[i].tail_nodes_[k]]; }
    h.TopologicallySortNodesAndEdges(perm[N - 1]);
    check_wellformed(h, "topological sort leaves a well-formed graph, tails before heads");
    vs_assert(derivs(h, h.nodes_.size() - 1) == all, "topological sort keeps the derivations of the goal, which comes last");
    check_weights(h, id, lw);
    for (unsigned i = 0; i < h.nodes_.size(); ++i) { for (unsigned k = 0; k < h.nodes_[i].in_edges_.size(); ++k) { const int o = g.edges_[id[ename(h.edges_[h.nodes_[i].in_edges_[k]])]].head_node_; vs_assert(h.nodes_[i].node_hash == 100u + o && h.nodes_[i].cat_ == g.nodes_[o].cat_, "topological sort keeps the identity of the nodes"); } }
    for (unsigned i = 0; i + 1 < h.nodes_.size(); ++i) vs_assert(!h.nodes_[i].out_edges_.empty(), "nodes the goal does not use are dropped");
    vs_reach("sorted");
  } else if (op == 1) { // prune a set of edges
    std::vector<bool> cut(E), keep(E); for (int i = 0; i < E; ++i) { cut[i] = vs_choice("cut", 2); keep[i] = !cut[i]; }
    const std::multiset<std::string> want = masked(g, keep);
    Hypergraph h = g; h.PruneEdges(cut, true);
    if (want.empty()) vs_assert(h.edges_.empty() && h.nodes_.size() == 1, "pruning every derivation leaves an empty graph");
    else {
      check_wellformed(h, "pruning edges leaves a well-formed graph");
      vs_assert(derivs(h, h.nodes_.size() - 1) == want, "pruning edges keeps exactly the derivations that do not use them");
      check_weights(h, id, lw);
      for (unsigned i = 0; i + 1 < h.nodes_.size(); ++i) vs_assert(!h.nodes_[i].out_edges_.empty() && !h.nodes_[i].in_edges_.empty(), "no dangling node is left by pruning");
      vs_reach("pruned");
    }
  } else if (op == 2) { // keep a set of edges
    std::vector<bool> keep(E), kn; for (int i = 0; i < E; ++i) keep[i] = vs_choice("keep", 2);
    const std::multiset<std::string> want = masked(g, keep); std::vector<bool> k2 = keep;
    HypergraphP h = g.CreateEdgeSubset(k2, kn);
    for (int i = 0; i < E; ++i) vs_assert(!k2[i] || keep[i], "an edge subset never adds edges");
    check_wellformed(*h, "an edge subset is well formed"); check_weights(*h, id, lw);
    std::set<std::string> in; for (unsigned i = 0; i < h->edges_.size(); ++i) in.insert(ename(h->edges_[i]));
    for (int i = 0; i < E; ++i) vs_assert((int)in.count(ename(g.edges_[i])) == k2[i], "the subset has exactly the edges of the mask it returns");
    if (!want.empty()) { vs_assert(derivs(*h, h->nodes_.size() - 1) == want, "an edge subset has exactly the derivations over its edges"); vs_reach("subset"); }
    for (int v = 0; v < N; ++v) { bool d = false; Ref r(g); const std::vector<DV>& dv = r.node(v); for (unsigned i = 0; i < dv.size(); ++i) { bool ok = true; for (unsigned k = 0; k < dv[i].size(); ++k) ok &= keep[dv[i][k]]; d |= ok; } vs_assert(kn[v] == d, "an edge subset keeps exactly the nodes that can still be derived"); }
  } else if (op == 3) { // union of two graphs over overlapping node identities
    std::vector<bool> a(E), b(E); for (int i = 0; i < E; ++i) { const int k = i < E - 5 ? 2 : vs_choice("side", 3); a[i] = k != 1; b[i] = k != 0; }
    Hypergraph ga, gb;
    for (int s = 0; s < 2; ++s) { Hypergraph& x = s ? gb : ga; for (int i = 0; i < N; ++i) { x.AddNode(g.nodes_[i].cat_); x.nodes_.back().node_hash = g.nodes_[i].node_hash; }
      for (int i = 0; i < E; ++i) if ((s ? b : a)[i]) { HG::Edge* e = x.AddEdge(g.edges_[i], g.edges_[i].tail_nodes_); e->edge_prob_ = g.edges_[i].edge_prob_; x.ConnectEdgeToHeadNode(e->id_, g.edges_[i].head_node_); } }
    HG::Union(gb, &ga);
    check_wellformed(ga, "the union is well formed");
    vs_assert(derivs(ga, ga.nodes_.size() - 1) == all, "the union of two forests has exactly the derivations over the edges of both");
    vs_assert(ga.edges_.size() <= (unsigned)E, "the union does not duplicate shared edges");
    for (unsigned i = 0; i < ga.edges_.size(); ++i) { const int k = id[ename(ga.edges_[i])]; vs_assert(ga.edges_[i].feature_values_.value(1) == lw[k], "the union keeps features"); vs_assert(ga.edges_[i].i_ == k && ga.edges_[i].prev_j_ == k + 3, "the union keeps spans"); }
    vs_reach("union");
  } else { // disjoint union under one goal
    Hypergraph h = g, o = g; for (int i = 0; i < E; ++i) { TRulePtr r(new TRule(*o.edges_[i].rule_)); r->e_[0] = TD::Convert(word(E + i)); o.edges_[i].rule_ = r; }
    for (int i = 0; i < E; ++i) { const HG::Edge& e = o.edges_[i]; id[ename(e)] = i; }
    const std::multiset<std::string> other = derivs(o, N - 1); std::multiset<std::string> want = all; want.insert(other.begin(), other.end());
    h.Union(o);
    check_wellformed(h, "the disjoint union is well formed");
    vs_assert(derivs(h, h.nodes_.size() - 1) == want, "the disjoint union has the derivations of both forests");
    check_weights(h, id, lw);
    vs_reach("disjoint");
  }
}
