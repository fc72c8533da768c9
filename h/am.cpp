// Rescoring a forest with stateful feature functions: full intersection, cube
// pruning and its two faster variants, against brute force over derivations.
#include "hgh.h"
#include "ff.h"
#include "ffset.h"
#include "ff_basic.h"
#include "apply_models.h"
#include "sentence_metadata.h"
#include "lattice.h"
#include <cmath>
static const int S = 0; // sentence boundary class; words are 1..3
static double big(int x, int y) { return 0.5 * (((3 * x + 5 * y + x * y) % 7) - 4); }
static int cls(WordID w) { return TD::Convert(w)[1] - 'a' + 1; }
static int fA, fB, fN, fP, fAr[3];
// bigram scores over the target side; state: first and last word
struct Bigram : public FeatureFunction {
  Bigram() : FeatureFunction(2) {}
  void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const std::vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>* est, void* st) const {
    int first = 0, prev = 0; double s = 0;
    for (unsigned i = 0; i < e.rule_->e_.size(); ++i) { const WordID w = e.rule_->e_[i]; int a, b;
      if (w > 0) a = b = cls(w); else { const unsigned char* p = (const unsigned char*)ants[-w]; a = p[0]; b = p[1]; }
      if (prev) s += big(prev, a); else first = a;
      prev = b; }
    f->set_value(fB, s); est->set_value(fB, big(S, first));
    unsigned char* o = (unsigned char*)st; o[0] = first; o[1] = prev;
  }
  void FinalTraversalFeatures(const void* st, SparseVector<double>* f) const { const unsigned char* p = (const unsigned char*)st; f->set_value(fB, big(S, p[0]) + big(p[1], S)); }
};
// number of words modulo 2 as state; with IGN the full count rides along as ignored side data
struct Count : public FeatureFunction {
  explicit Count(bool ign) : FeatureFunction(ign ? 3 : 2, ign ? 1 : 0), g(ign) {}
  bool g;
  void TraversalFeaturesImpl(const SentenceMetadata&, const HG::Edge& e, const std::vector<const void*>& ants, SparseVector<double>* f, SparseVector<double>* est, void* st) const {
    int n = 0, side = 0; for (unsigned i = 0; i < e.rule_->e_.size(); ++i) { const WordID w = e.rule_->e_[i]; if (w > 0) ++n; else n += ((const unsigned char*)ants[-w])[0]; }
    if (g) for (unsigned i = 0; i < ants.size(); ++i) side += ((const unsigned char*)ants[i])[2];
    f->set_value(fN, n / 2); unsigned char* o = (unsigned char*)st; o[0] = n % 2; o[1] = 7;
    if (g) { f->set_value(fP, side); o[2] = 1 + e.i_ % 5; }   // ignored byte: which rule produced this state
  }
  void FinalTraversalFeatures(const void* st, SparseVector<double>* f) const { const unsigned char* p = (const unsigned char*)st; f->set_value(fN, 10 * p[0] + p[1]); if (g) f->set_value(fP, p[2]); }
};
extern "C" void vs_setup() { hg_setup(); fA = FD::Convert("A"); fB = FD::Convert("B"); fN = FD::Convert("N"); fP = FD::Convert("P"); for (int i = 0; i < 3; ++i) fAr[i] = FD::Convert("Arity_" + std::to_string(i)); FD::Convert("WordPenalty"); }
struct DInfo { std::vector<int> y; double a, n; };
extern "C" void vs_harness() {
  Hypergraph in;
#ifdef SHAPES
  shape_hg(in, vs_choice("shape", 5));
#else
  sym_hg(in, NN, MM, 2); vs_assume(all_derivable(in)); vs_assume(all_used(in));
#endif
  const int pat = 1 + vs_choice("words", WP), E0 = in.edges_.size();
  for (int k = 0; k < E0; ++k) { HG::Edge& e = in.edges_[k]; TRulePtr r(new TRule(*e.rule_)); r->e_[0] = TD::Convert(word(k % pat)); if (r->arity_ == 2 && k % 2) { r->e_[1] = r->e_[0]; r->e_[0] = -1; r->e_[2] = 0; } e.rule_ = r; }
  // the goal: one unary edge from the last node
  { const int gn = in.AddNode(-TD::Convert("X"))->id_; TailNodeVector t(1, gn - 1); TRulePtr r(new TRule); r->lhs_ = -TD::Convert("X"); r->arity_ = 1; r->e_.push_back(0); r->f_.push_back(-TD::Convert("X")); HG::Edge* e = in.AddEdge(r, t); in.ConnectEdgeToHeadNode(e->id_, gn); }
  const int E = in.edges_.size(), N = in.nodes_.size();
  std::vector<double> a(E);
  for (int k = 0; k < E; ++k) { HG::Edge& e = in.edges_[k]; a[k] = k < E - 1 ? vs_fix("a", -WW, 0, 1) : 0; e.feature_values_.set_value(fA, a[k]); e.i_ = k; e.j_ = 100 + k; e.prev_i_ = k + 3; e.prev_j_ = k + 7; }
  for (int v = 0; v < N; ++v) in.nodes_[v].node_hash = 1000 + v;
  const bool ign = MODE == 2, plain = MODE == 1; // plain: the stateful scores carry no weight
  const int alg = vs_choice("algorithm", 4);
  int pop = 1000; if (alg && MODE != 2) { const int p = vs_choice("pop", POPS); if (p) pop = p; }
  std::vector<double> w(FD::NumFeats()); w[fA] = 1; w[fB] = plain ? 0 : 0.5; w[fN] = plain ? 0 : -0.25; w[fP] = 0; w[fAr[1]] = -0.5;
  Bigram B; Count C(ign); ArityPenalty AP("2"); WordPenalty W("");
  std::vector<const FeatureFunction*> ffs; ffs.push_back(&C); ffs.push_back(&AP); ffs.push_back(&B); ffs.push_back(&W);
  const ModelSet ms(w, ffs); Lattice nolat; const SentenceMetadata sm(0, nolat);
  Hypergraph out; ApplyModelSet(in, sm, ms, IntersectionConfiguration(alg, pop), &out);
  check_wellformed(out, "the rescored forest is well formed");
  const bool all = !alg || pop == 1000;
  // reference
  Ref ri(in), ro(out); std::map<DV, int> want;
  const std::vector<DV>& di = ri.node(N - 1); for (unsigned d = 0; d < di.size(); ++d) want[di[d]] = 0;
  const std::vector<DV>& od = ro.node(out.nodes_.size() - 1);
  vs_assert(!od.empty(), "the rescored forest has a derivation");
  for (unsigned i = 0; i < out.edges_.size(); ++i) { const HG::Edge& e = out.edges_[i]; const int k = e.i_;
    vs_assert(k >= 0 && k < E && e.j_ == 100 + k && e.prev_i_ == k + 3 && e.prev_j_ == k + 7 && e.rule_ == in.edges_[k].rule_, "every rescored edge is a copy of an edge of the forest");
    if (k < E - 1) { // stateless features of the edge
      int nw = 0; for (unsigned q = 0; q < e.rule_->e_.size(); ++q) nw += e.rule_->e_[q] > 0;
      vs_assert(e.feature_values_.value(FD::Convert("WordPenalty")) == nw * (-1.0 / log(10)), "the word penalty counts the target words of the rule");
      for (int q = 0; q < 3; ++q) vs_assert(e.feature_values_.value(fAr[q]) == (q == (int)e.tail_nodes_.size()), "the arity feature marks the arity of the rule"); }
    vs_assert(e.feature_values_.value(fA) == a[k], "rescoring keeps the features of the rule");
    vs_assert(log(e.edge_prob_) == a[k] + w[fB] * e.feature_values_.value(fB) + w[fN] * e.feature_values_.value(fN) + w[fAr[1]] * e.feature_values_.value(fAr[1]), "the weight of an edge is the dot product of its features with the weights");
  }
  double best = 0; bool some = false;
  std::vector<double> tot(di.size());
  std::map<DV, double> ref;
  std::map<DV, std::vector<int> > yield_cls;
  for (unsigned d = 0; d < di.size(); ++d) { // yield and score of every derivation of the input
    std::vector<std::vector<int> > st; double sa = 0; int un = 0;
    for (unsigned i = 0; i < di[d].size(); ++i) { const HG::Edge& e = in.edges_[di[d][i]]; const int k = e.tail_nodes_.size(); std::vector<int> y;
      for (unsigned q = 0; q < e.rule_->e_.size(); ++q) { const WordID x = e.rule_->e_[q]; if (x > 0) y.push_back(cls(x)); else { const std::vector<int>& c = st[st.size() - k - x]; y.insert(y.end(), c.begin(), c.end()); } }
      st.resize(st.size() - k); st.push_back(y); sa += a[e.id_]; if (e.id_ < E - 1) un += k == 1; }
    const std::vector<int>& y = st.back(); double b = 0; int p = S; for (unsigned i = 0; i < y.size(); ++i) { b += big(p, y[i]); p = y[i]; } b += big(p, S);
    yield_cls[di[d]] = y; ref[di[d]] = b; tot[d] = sa - 0.5 * un; if (d == 0 || tot[d] > best) best = tot[d]; }
  for (unsigned d = 0; d < od.size(); ++d) {
    DV x; double sb = 0, sn = 0; for (unsigned i = 0; i < od[d].size(); ++i) { const HG::Edge& e = out.edges_[od[d][i]]; x.push_back(e.i_); sb += e.feature_values_.value(fB); sn += e.feature_values_.value(fN); }
    std::map<DV, int>::iterator it = want.find(x);
    vs_assert(it != want.end(), "every derivation of the rescored forest is a derivation of the forest"); if (it == want.end()) continue;
    vs_assert(++it->second == 1, "no derivation appears twice in the rescored forest");
    vs_assert(sb == ref[x], "a stateful feature totals what it scores on the whole derivation, boundaries included once");
    vs_assert(out.edges_[od[d].back()].feature_values_.value(fN) == 10 * (yield_cls[x].size() % 2) + 7, "each feature function gets its own part of the state back at the goal");
    for (unsigned q = 0; q < di.size(); ++q) if (di[q] == x) { double s = 0; for (unsigned i = 0; i < od[d].size(); ++i) s += log(out.edges_[od[d][i]].edge_prob_); vs_assert(s == tot[q] + w[fB] * sb + w[fN] * sn, "the weight of a rescored derivation is its score"); if (plain) some |= tot[q] == best; }
  }
  if (all) { vs_reach("all"); for (std::map<DV, int>::iterator it = want.begin(); it != want.end(); ++it) vs_assert(it->second == 1, "with no pruning every derivation of the forest is kept"); }
  else { vs_reach("pruned"); }
  if (plain) vs_assert(some, "when the models do not interact, cube pruning keeps the best derivation at every pop limit");
  // states: derivations of one rescored node agree on the state, different nodes of one original node do not
  std::vector<std::set<std::vector<int> > > sts(out.nodes_.size()); std::vector<int> orig(out.nodes_.size(), -1);
  for (unsigned v = 0; v < out.nodes_.size(); ++v) {
    vs_assert(!out.nodes_[v].in_edges_.empty(), "every rescored node can be derived");
    const std::vector<DV>& dv = ro.node(v);
    for (unsigned i = 0; i < out.nodes_[v].in_edges_.size(); ++i) { const int h = in.edges_[out.edges_[out.nodes_[v].in_edges_[i]].i_].head_node_; vs_assert(orig[v] < 0 || orig[v] == h, "a rescored node refines one node of the forest"); orig[v] = h; }
    if (orig[v] == N - 1) { vs_assert(v + 1 == out.nodes_.size(), "there is one goal and it is last"); continue; }
    for (unsigned d = 0; d < dv.size(); ++d) { std::vector<std::vector<int> > st;
      for (unsigned i = 0; i < dv[d].size(); ++i) { const HG::Edge& e = out.edges_[dv[d][i]]; const int k = e.tail_nodes_.size(); std::vector<int> y;
        for (unsigned q = 0; q < e.rule_->e_.size(); ++q) { const WordID x = e.rule_->e_[q]; if (x > 0) y.push_back(cls(x)); else { const std::vector<int>& c = st[st.size() - k - x]; y.insert(y.end(), c.begin(), c.end()); } }
        st.resize(st.size() - k); st.push_back(y); }
      std::vector<int> s; s.push_back(st.back().front()); s.push_back(st.back().back()); s.push_back(st.back().size() % 2); 
      if (ign && !alg) s.push_back(out.edges_[dv[d].back()].i_ % 5);
      sts[v].insert(s); }
    vs_assert(sts[v].size() == 1, "the derivations of a rescored node share one state");
    for (unsigned u = 0; u < v; ++u) if (orig[u] == orig[v]) { vs_assert(sts[u] != sts[v], "equal states of one node are merged"); vs_assert(out.nodes_[u].node_hash != out.nodes_[v].node_hash, "nodes split by state get identifiers of their own"); vs_reach("split"); }
    if (dv.size() > 1) vs_reach("merged");
  }
  // pop limits
  if (!all) for (int h = 0; h < N; ++h) { int n = 0; for (unsigned i = 0; i < out.edges_.size(); ++i) n += in.edges_[out.edges_[i].i_].head_node_ == h; vs_assert(n <= pop, "no node keeps more edges than the pop limit"); }
  if (ign) for (unsigned i = 0; i < out.edges_.size(); ++i) { // side data follows the best derivation of each antecedent
    const HG::Edge& e = out.edges_[i]; const double got = e.feature_values_.value(fP); std::set<int> can; can.insert(0);
    for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) { const int t = e.tail_nodes_[k]; const std::vector<DV>& dv = ro.node(t); std::vector<double> sc(dv.size()); double m = 0;
      for (unsigned d = 0; d < dv.size(); ++d) { for (unsigned q = 0; q < dv[d].size(); ++q) sc[d] += log(out.edges_[dv[d][q]].edge_prob_); if (!d || sc[d] > m) m = sc[d]; }
      std::set<int> nx; for (unsigned d = 0; d < dv.size(); ++d) if (sc[d] == m) for (std::set<int>::iterator c = can.begin(); c != can.end(); ++c) nx.insert(*c + 1 + out.edges_[dv[d].back()].i_ % 5);
      can.swap(nx); }
    bool ok = false; for (std::set<int>::iterator c = can.begin(); c != can.end(); ++c) ok |= got == *c;
    vs_assert(ok, "ignored state bytes are those of the best derivation of the antecedent"); if (e.tail_nodes_.size()) vs_reach("side"); }
}
