// Inside, Outside, edge marginals and expectations over a generic commutative
// semiring equal the sums over enumerated derivations.
#include "hgh.h"
#include "inside_outside.h"
#ifndef NN
#define NN 3
#define MM 4
#endif
#ifndef W
#define W 5
#endif
struct SR { int64_t v; SR() : v(0) {} SR(int x) : v(x) {} SR(int64_t x, bool) : v(x) {}
  SR& operator+=(const SR& o) { v += o.v; return *this; } SR& operator*=(const SR& o) { v *= o.v; return *this; } };
static SR operator*(SR a, const SR& b) { a *= b; return a; }
static SR operator+(SR a, const SR& b) { a += b; return a; }
static int64_t wt[16], rt[16];
struct WF { typedef SR Weight; typedef SR Result; SR operator()(const HG::Edge& e) const { return SR(wt[e.id_], true); } };
struct XF { typedef SR Result; typedef SR Weight; SR operator()(const HG::Edge& e) const { return SR(rt[e.id_] * wt[e.id_], true); } };
extern "C" void vs_setup() { hg_setup(); }
extern "C" void vs_harness() {
  Hypergraph g;
#ifdef SHAPES
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, 2);
#endif
  const int E = g.edges_.size(), V = g.nodes_.size();
  for (int i = 0; i < E; ++i) { wt[i] = vs_int("w", -W, W); rt[i] = vs_int("r", -3, 3); }
  Ref ref(g); const std::vector<DV> all = ref.node(V - 1);
  // reference: sums over derivations
  int64_t tot = 0, ex = 0; std::vector<int64_t> marg(E, 0);
  for (unsigned d = 0; d < all.size(); ++d) {
    int64_t p = 1; for (unsigned k = 0; k < all[d].size(); ++k) p *= wt[all[d][k]];
    tot += p; for (unsigned k = 0; k < all[d].size(); ++k) { marg[all[d][k]] += p; ex += p * rt[all[d][k]]; }
  }
  std::vector<SR> in; SR z = Inside<SR, WF>(g, &in, WF());
  vs_assert(z.v == tot, "inside of the goal is the sum over derivations of the products of edge weights");
  for (int v = 0; v < V; ++v) {
    int64_t t = 0; const std::vector<DV>& dv = ref.node(v);
    for (unsigned d = 0; d < dv.size(); ++d) { int64_t p = 1; for (unsigned k = 0; k < dv[d].size(); ++k) p *= wt[dv[d][k]]; t += p; }
    vs_assert(in[v].v == t, "inside of every node is the sum over its derivations");
  }
  InsideOutsides<SR> io; SR z2 = io.compute(g, WF());
  vs_assert(z2.v == tot, "inside-outside returns the total");
  std::vector<SR> mm; io.compute_edge_marginals(g, mm, WF());
  for (int i = 0; i < E; ++i) vs_assert(mm[i].v == marg[i], "edge marginal is the weight of the derivations through the edge, counted with multiplicity");
  SR x; SR z3 = InsideOutside<SR, WF, SR, XF>(g, &x, WF(), XF());
  vs_assert(z3.v == tot, "expectation pass returns the total");
  vs_assert(x.v == ex, "expectation is the sum over derivations of weight times additive value");
  // results do not depend on what the vectors held before
  SR z4 = Inside<SR, WF>(g, &in, WF()); vs_assert(z4.v == tot && in[V - 1].v == tot, "a repeated inside pass gives the same total");
  std::vector<SR> out; Outside<SR, WF>(g, in, &out, WF()); Outside<SR, WF>(g, in, &out, WF());
  for (int i = 0; i < E; ++i) { int64_t m = out[g.edges_[i].head_node_].v * wt[i]; for (unsigned k = 0; k < g.edges_[i].tail_nodes_.size(); ++k) m *= in[g.edges_[i].tail_nodes_[k]].v; vs_assert(m == marg[i], "outside times inside is the weight of the derivations through an edge"); }
  SR z5 = io.compute(g, WF()); vs_assert(z5.v == tot, "a repeated inside-outside pass gives the same total");
  std::vector<SR> m2(E, SR(7)); io.compute_edge_marginals(g, m2, WF());
  for (int i = 0; i < E; ++i) vs_assert(m2[i].v == marg[i], "repeated edge marginals are the same");
  // expectation semiring gives the same pair in a single inside pass
  vs_assert((int64_t)g.NumberOfPaths() == (int64_t)all.size(), "number of paths counts the derivations");
  if (all.size() > 1) vs_reach("ambiguous");
}
