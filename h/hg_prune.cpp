// Beam and density pruning keep the best derivation and exactly the edges
// within the margin.
#include "hgh.h"
#include "viterbi.h"
#include "inside_outside.h"
extern "C" void vs_setup() { hg_setup(); }
static std::string ename(const Hypergraph& g, int e) { return TD::Convert(g.edges_[e].rule_->e_[0]); }
extern "C" void vs_harness() {
  Hypergraph g;
#ifdef SHAPES
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, AR);
#endif
  vs_assume(all_derivable(g)); vs_assume(all_used(g));
#ifdef DENSITY // the cutoff is scaled by a non-dyadic constant: fork the weights
  std::vector<double> lw; for (unsigned i = 0; i < g.edges_.size(); ++i) { lw.push_back(-0.5 * vs_choice("logp", WW)); g.edges_[i].edge_prob_.logeq(lw[i]); }
#else
  std::vector<double> lw; sym_probs(g, &lw, -WW, 0, 1);
#endif
  Ref ref(g); const std::vector<DV> all = ref.node(g.nodes_.size() - 1);
  std::set<std::string> left; const int E = g.edges_.size();
  std::vector<const HG::Edge*> path; const double best = log(Viterbi<ViterbiPathTraversal>(g, &path)); const int plen = path.size();
  std::vector<std::string> vit; for (unsigned i = 0; i < path.size(); ++i) vit.push_back(TD::Convert(path[i]->rule_->e_[0]));
  Hypergraph h = g;
#ifdef DENSITY
  const double density = 1 + 0.5 * vs_choice("density", AA);
  const double alpha = 0.625 * vs_choice("beam", 2) - 0.0; // 0: no beam
  h.PruneInsideOutside(alpha, density, NULL, false, 1, PM);
#else
  const double alpha = 0.25 + vs_choice("alpha", AA);
  std::vector<bool> keep(E); const bool pm = PM && vs_choice("preserve", 2); int pe = -1;
  if (pm) { pe = vs_choice("edge", E); keep[pe] = true; }
  h.PruneInsideOutside(alpha, 0, pm ? &keep : NULL, false, 1, PM);
#endif
  check_wellformed(h, "the pruned graph is well formed");
  for (unsigned i = 0; i < h.edges_.size(); ++i) left.insert(ename(h, i));
  vs_assert(left.size() == h.edges_.size(), "pruning does not duplicate edges");
  for (unsigned i = 0; i < vit.size(); ++i) vs_assert(left.count(vit[i]), "the edges of the best derivation survive pruning");
  std::vector<const HG::Edge*> p2; const double b2 = log(Viterbi<ViterbiPathTraversal>(h, &p2));
  vs_assert(b2 == best, "pruning keeps the weight of the best derivation");
  for (unsigned i = 0; i < h.nodes_.size(); ++i) vs_assert(!h.nodes_[i].in_edges_.empty(), "every node that is left can be derived");
  for (unsigned i = 0; i < h.edges_.size(); ++i) for (int e = 0; e < E; ++e) if (ename(g, e) == ename(h, i)) vs_assert(log(h.edges_[i].edge_prob_) == lw[e], "pruning does not change the weights of the edges it keeps");
  // margins of the original graph
  std::vector<bool> reach(E);
  for (int e = 0; e < E; ++e) for (unsigned d = 0; d < all.size(); ++d) if (has(all[d], e)) reach[e] = true;
#ifdef DENSITY
  const int want = std::min(E, (int)(density * plen));
  // documented: no more than density * (edges of the best derivation), ties with the best apart
  std::vector<double> mg(E);
  for (int e = 0; e < E; ++e) { bool f = true; for (unsigned d = 0; d < all.size(); ++d) if (has(all[d], e)) { const double s = score(all[d], lw); if (f || s > mg[e]) mg[e] = s; f = false; } }
  for (int e = 0; e < E; ++e) { int n = 0; for (int f = 0; f < E; ++f) n += mg[f] >= mg[e];
    const bool in = left.count(ename(g, e));
    const bool beam = alpha > 0 && mg[e] < best - alpha;
    if (beam) vs_assert(!in, "with a beam as well, the stricter limit applies");
    else if (want >= E || mg[e] == best) vs_assert(in, "density pruning keeps the edges of the best derivations");
    else if (n <= want) vs_assert(in, "density pruning keeps an edge ranked within the allowance");
    else vs_assert(!in, "density pruning keeps no more edges than allowed"); }
  // an edge that was dropped has no better margin than any that was kept
  for (int e = 0; e < E; ++e) if (!left.count(ename(g, e))) {
    vs_reach("pruned");
    for (unsigned d = 0; d < all.size(); ++d) if (has(all[d], e)) {
      const double s = score(all[d], lw);
      for (int f = 0; f < E; ++f) if (left.count(ename(g, f))) { bool ok = false; for (unsigned k = 0; k < all.size(); ++k) if (has(all[k], f)) ok |= score(all[k], lw) >= s; vs_assert(ok, "density pruning keeps the edges with the best derivations through them"); }
    }
  }
#else
  for (int e = 0; e < E; ++e) {
    const bool in = left.count(ename(g, e)); bool ok = false;
    for (unsigned d = 0; d < all.size(); ++d) if (has(all[d], e)) ok |= score(all[d], lw) >= best - alpha;
    if (ok) vs_assert(in, "an edge with a derivation within the beam survives");
    else if (e != pe) { vs_assert(!in, "an edge with no derivation within the beam is removed"); vs_reach("pruned"); }
  }
  // a preserved edge survives as long as its antecedents do
  if (pm) { const HG::Edge& x = g.edges_[pe]; bool can = true; 
    for (unsigned k = 0; k < x.tail_nodes_.size(); ++k) { bool t = false; const Hypergraph::EdgesVector& in = g.nodes_[x.tail_nodes_[k]].in_edges_; for (unsigned q = 0; q < in.size(); ++q) t |= left.count(ename(g, in[q])); can &= t; }
    bool up = x.head_node_ == (int)g.nodes_.size() - 1; const Hypergraph::EdgesVector& ou = g.nodes_[x.head_node_].out_edges_; for (unsigned q = 0; q < ou.size(); ++q) up |= left.count(ename(g, ou[q]));
    if (can && up) vs_assert(left.count(ename(g, pe)), "a preserved edge survives"); }
#endif
}
