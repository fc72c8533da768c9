// Viterbi: best weight, derivation, yields, lengths, features; max-marginals;
// the Viterbi hypergraph and the Viterbi ordering of in-edges.
#include "hgh.h"
#include "viterbi.h"
extern "C" void vs_setup() { hg_setup(); FD::Convert("A"); FD::Convert("B"); }
extern "C" void vs_harness() {
  Hypergraph g;
#ifdef SHAPES
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, AR);
#endif
  vs_assume(all_derivable(g));
  std::vector<double> lw; sym_probs(g, &lw, -WW, 1, 1);
  const int fa = FD::Convert("A");
  for (unsigned i = 0; i < g.edges_.size(); ++i) { g.edges_[i].feature_values_.set_value(fa, lw[i]); g.edges_[i].i_ = i; g.edges_[i].j_ = i + 1; }
  Ref ref(g); const std::vector<DV> all = ref.node(g.nodes_.size() - 1);
  std::vector<const HG::Edge*> path; prob_t p = Viterbi<ViterbiPathTraversal>(g, &path);
  const double best = log(p);
  DV vd; for (unsigned i = 0; i < path.size(); ++i) vd.push_back(path[i]->id_);
  bool real = false; for (unsigned d = 0; d < all.size(); ++d) if (all[d] == vd) real = true;
  vs_assert(real, "the Viterbi path is a derivation of the goal");
  vs_assert(score(vd, lw) == best, "the Viterbi path has the Viterbi weight");
  for (unsigned d = 0; d < all.size(); ++d) vs_assert(score(all[d], lw) <= best, "no derivation outweighs the Viterbi weight");
  std::vector<WordID> y, z; yield_of(g, vd, &y);
  vs_assert(log(ViterbiESentence(g, &z)) == best, "yield extraction returns the Viterbi weight");
  vs_assert(y == z, "the Viterbi yield is the target yield of the Viterbi path");
  vs_assert(ViterbiELength(g) == (int)y.size(), "the Viterbi length is the length of the Viterbi yield");
  vs_assert(ViterbiPathLength(g) == (int)vd.size(), "the Viterbi path length is the number of rules in the path");
  SparseVector<double> fv = ViterbiFeatures(g);
  vs_assert(fv.value(fa) == best, "the Viterbi feature vector is the sum over the Viterbi path");
  // node and edge best scores
  Hypergraph::NodeProbs np; g.ComputeNodeViterbi(&np);
  for (unsigned v = 0; v < g.nodes_.size(); ++v) {
    const double x = log(np[v]); const std::vector<DV>& dv = ref.node(v); bool eq = false;
    for (unsigned d = 0; d < dv.size(); ++d) { const double s = score(dv[d], lw); vs_assert(s <= x, "node Viterbi score is no less than any of its derivations"); eq |= s == x; }
    vs_assert(eq, "node Viterbi score is attained by a derivation");
  }
  Hypergraph::EdgeProbs bp; prob_t vp = g.ComputeBestPathThroughEdges(&bp);
  vs_assert(log(vp) == best, "max-marginal pass returns the Viterbi weight");
  for (unsigned e = 0; e < g.edges_.size(); ++e) {
    bool any = false, eq = false; const double x = log(bp[e]);
    for (unsigned d = 0; d < all.size(); ++d) if (has(all[d], e)) { const double s = score(all[d], lw); vs_assert(s <= x, "best path through an edge is no less than any derivation using it"); eq |= s == x; any = true; }
    if (any) vs_assert(eq, "best path through an edge is attained by a derivation using it"); else vs_assert(bp[e].is_0(), "an edge in no derivation has no path through it");
  }
  HypergraphP vh = g.CreateViterbiHypergraph();
  check_wellformed(*vh, "the Viterbi hypergraph is well formed");
  const std::multiset<std::string> vds = derivs(*vh, vh->nodes_.size() - 1);
  std::string want; for (unsigned i = 0; i < vd.size(); ++i) want += TD::Convert(g.edges_[vd[i]].rule_->e_[0]) + std::string(" ");
  vs_assert(vds.count(want) >= 1, "the Viterbi hypergraph contains the Viterbi derivation");
  vs_assert(vds.size() == 1, "the Viterbi hypergraph contains only the Viterbi derivation");
  std::vector<const HG::Edge*> p2; vs_assert(log(Viterbi<ViterbiPathTraversal>(*vh, &p2)) == best, "the Viterbi hypergraph keeps the weights");
  // ordering of in-edges
  Hypergraph h2 = g; const HG::Edge* fe = h2.ViterbiSortInEdges();
  check_wellformed(h2, "sorting in-edges keeps the graph well formed");
  Hypergraph::EdgeProbs ev; h2.ComputeEdgeViterbi(&ev);
  for (unsigned v = 0; v < h2.nodes_.size(); ++v) for (unsigned i = 1; i < h2.nodes_[v].in_edges_.size(); ++i) vs_assert(!(ev[h2.nodes_[v].in_edges_[i - 1]] < ev[h2.nodes_[v].in_edges_[i]]), "in-edges are in order of their best derivation");
  vs_assert(fe && log(ev[fe->id_]) == best, "the first goal edge starts a best derivation");
  // pushing Viterbi weights to the goal: best derivations get 1, others keep their ratio
  Hypergraph h3 = g; h3.PushViterbiWeightsToGoal(FD::Convert("B"));
  if (all.size() > 1) vs_reach("ambiguous");
}
