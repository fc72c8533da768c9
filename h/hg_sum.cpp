// Sum-product pruning, posteriors and weight pushing: weights from a small
// set, forked on (logarithms of sums are not linear), exact reference in doubles.
#include "hgh.h"
#include "viterbi.h"
#include "inside_outside.h"
extern "C" void vs_setup() { hg_setup(); }
static std::string ename(const Hypergraph& g, int e) { return TD::Convert(g.edges_[e].rule_->e_[0]); }
static bool close(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(a) + fabs(b)); }
extern "C" void vs_harness() {
  Hypergraph g;
#ifdef SHAPES
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, AR);
#endif
  vs_assume(all_derivable(g)); vs_assume(all_used(g));
  const int E = g.edges_.size(); std::vector<double> w(E);
  for (int i = 0; i < E; ++i) { w[i] = i % 2 ? 1 : (1 << vs_choice("w", 3)) / 2.0; if (w[i] == 2) w[i] = 3; g.edges_[i].edge_prob_ = prob_t(w[i]); }
  Ref ref(g); const std::vector<DV> all = ref.node(g.nodes_.size() - 1);
  const double scale = vs_choice("scaled", 2) ? 2 : 1;
  double z = 0, z1 = 0; std::vector<double> post(E, 0.0), dw(all.size()), mx(E, 0.0);
  for (unsigned d = 0; d < all.size(); ++d) {
    double p = 1; for (unsigned i = 0; i < all[d].size(); ++i) p *= w[all[d][i]];
    z1 += p; dw[d] = p; if (scale == 2) p *= p;
    z += p; for (int e = 0; e < E; ++e) { for (unsigned i = 0; i < all[d].size(); ++i) if (all[d][i] == e) post[e] += p; if (has(all[d], e)) mx[e] += p; }
  }
  if (all.size() > 1) vs_reach("ambiguous");
  // posteriors count occurrences of an edge in a derivation
  Hypergraph::EdgeProbs ps; const prob_t in = g.ComputeEdgePosteriors(scale, &ps);
  vs_assert(close(log(in), log(z)), "the inside weight is the sum over derivations");
  for (int e = 0; e < E; ++e) vs_assert(close(ps[e].as_float() , post[e]), "the posterior of an edge is the weight of the derivations using it");
  { // pushing towards the goal: the in-edges of a node form a distribution, ratios of derivations are kept
    Hypergraph h = g; const prob_t r = h.PushWeightsToGoal(scale);
    vs_assert(close(log(r), log(z)), "weight pushing returns the total weight");
    for (unsigned v = 0; v < h.nodes_.size(); ++v) { double s = 0; for (unsigned i = 0; i < h.nodes_[v].in_edges_.size(); ++i) s += h.edges_[h.nodes_[v].in_edges_[i]].edge_prob_.as_float(); vs_assert(close(s, 1), "after pushing, the in-edges of every node sum to one"); }
    for (unsigned d = 0; d < all.size(); ++d) { double p = 1; for (unsigned i = 0; i < all[d].size(); ++i) p *= h.edges_[all[d][i]].edge_prob_.as_float(); vs_assert(close(p, (scale == 2 ? dw[d] * dw[d] : dw[d]) / z), "after pushing, the weight of a derivation is its posterior probability"); }
  }
  { // Viterbi pushing: the best derivation weighs one, the others keep their ratio to it
    Hypergraph h = g; const prob_t r = h.PushViterbiWeightsToGoal(FD::Convert("B")); double best = 0;
    for (unsigned d = 0; d < all.size(); ++d) best = std::max(best, dw[d]);
    vs_assert(close(log(r), log(best)), "Viterbi weight pushing returns the best weight");
    for (unsigned d = 0; d < all.size(); ++d) { double p = 1, f = 0; for (unsigned i = 0; i < all[d].size(); ++i) { const HG::Edge& x = h.edges_[all[d][i]]; p *= x.edge_prob_.as_float(); f += x.feature_values_.value(FD::Convert("B")); } vs_assert(close(p, dw[d] / best), "after Viterbi pushing, a derivation weighs its ratio to the best one"); vs_assert(close(f, log(dw[d] / best)), "after Viterbi pushing, the pushed feature sums to the log ratio"); }
  }
  { bool chain = true; for (int e = 0; e < E; ++e) if (g.edges_[e].tail_nodes_.size() > 1) chain = false;
    int src = 0; for (int e = 0; e < E; ++e) if (g.edges_[e].tail_nodes_.empty()) ++src;
    if (chain && src == 1) { // a lattice
      vs_reach("lattice");
      Hypergraph h = g; h.PushWeightsToSource(scale);
      for (unsigned v = 0; v + 1 < h.nodes_.size(); ++v) { double s = 0; for (unsigned i = 0; i < h.nodes_[v].out_edges_.size(); ++i) s += h.edges_[h.nodes_[v].out_edges_[i]].edge_prob_.as_float(); vs_assert(close(s, 1), "after pushing to the source, the arcs leaving a lattice node sum to one"); }
    } }
  { // sum-product beam
    Hypergraph h = g; const double alpha = 1.0 + vs_choice("alpha", 2); h.PruneInsideOutside(alpha, 0, NULL, true, scale, true);
    double best = 0; std::vector<double> m(E); bool rep = false;
    for (unsigned d = 0; d < all.size(); ++d) for (int e = 0; e < E; ++e) { int c = 0; for (unsigned i = 0; i < all[d].size(); ++i) c += all[d][i] == e; if (c > 1) rep = true; }
    for (int e = 0; e < E; ++e) { m[e] = post[e] / z; best = std::max(best, m[e]); }
    best = std::max(best, 1.0);
    if (!rep) {
      std::set<std::string> left; for (unsigned i = 0; i < h.edges_.size(); ++i) left.insert(ename(h, i));
      check_wellformed(h, "the sum-product pruned graph is well formed");
      // the edges over the threshold, closed under derivability: bottom up, then top down
      const double cut = best * exp(-alpha); std::vector<char> ok(E), node(g.nodes_.size()), used(g.nodes_.size()); bool edge_case = false;
      for (int e = 0; e < E; ++e) if (fabs(m[e] - cut) < 1e-4 * cut) edge_case = true;
      for (unsigned v = 0; v < g.nodes_.size(); ++v) for (unsigned i = 0; i < g.nodes_[v].in_edges_.size(); ++i) { const HG::Edge& x = g.edges_[g.nodes_[v].in_edges_[i]]; bool k = m[x.id_] >= cut; for (unsigned t = 0; t < x.tail_nodes_.size(); ++t) k &= node[x.tail_nodes_[t]]; ok[x.id_] = k; if (k) node[v] = 1; }
      if (node.back() && !edge_case) {
        used.back() = 1;
        for (int v = g.nodes_.size() - 1; v >= 0; --v) if (used[v]) for (unsigned i = 0; i < g.nodes_[v].in_edges_.size(); ++i) { const HG::Edge& x = g.edges_[g.nodes_[v].in_edges_[i]]; if (ok[x.id_]) for (unsigned t = 0; t < x.tail_nodes_.size(); ++t) used[x.tail_nodes_[t]] = 1; }
        for (int e = 0; e < E; ++e) { const bool want = ok[e] && used[g.edges_[e].head_node_]; vs_assert(left.count(ename(g, e)) == want, "sum-product pruning keeps exactly the edges whose posterior is within the beam"); if (!want) vs_reach("pruned"); }
      }
    }
  }
}
