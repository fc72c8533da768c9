// D06: forests written in binary read back unchanged; the printed grammar and
// the printed target graph denote the forest's derivations.
#include "hgh.h"
#include "decoder/hg_io.h"
#include <cstring>
#include <sstream>
#include <fstream>
// unbuffered byte store: keeps whatever was written, symbolic bytes included
struct Store : std::streambuf {
  std::vector<char> d; size_t r; Store() : r(0) {}
  std::streamsize xsputn(const char* p, std::streamsize n) override { for (std::streamsize i = 0; i < n; ++i) d.push_back(p[i]); return n; }
  int overflow(int c) override { if (c != EOF) d.push_back((char)c); return c == EOF ? 0 : c; }
  std::streamsize xsgetn(char* p, std::streamsize n) override { std::streamsize i = 0; for (; i < n && r < d.size(); ++i) p[i] = d[r++]; return i; }
  int underflow() override { return r < d.size() ? (unsigned char)d[r] : EOF; }
  int uflow() override { return r < d.size() ? (unsigned char)d[r++] : EOF; }
};
static bool bits_eq(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y; }
static bool same_fv(const SparseVector<double>& a, const SparseVector<double>& b, int nf) { if (a.size() != b.size()) return false; bool ok = true; for (int i = 1; i < nf; ++i) ok &= bits_eq(a.value(i), b.value(i)); return ok; }
static int F0, NF; static bool SW, NC;
static double dbl() { return vs_double("value"); }
static TRulePtr big_rule(int k, int ar) { // terminals around every variable; target order a decision
  static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  TRulePtr r(new TRule); r->lhs_ = -TD::Convert(k & 1 ? "Y" : "X"); r->arity_ = ar;
  const int* p = perms[ar == 3 ? vs_choice("perm", 6) : ar == 2 && (k & 1) && SW ? 2 : 0];
  r->f_.push_back(TD::Convert("f" + word(k)));
  for (int i = 0; i < ar; ++i) { r->f_.push_back(-TD::Convert(i == 1 ? "Y" : "X")); r->e_.push_back(-p[i]); if (i == 0) r->f_.push_back(TD::Convert("mid")); }
  r->e_.push_back(TD::Convert(word(k))); return r;
}
static bool same_rule(const TRule& a, const TRule& b) { return a.lhs_ == b.lhs_ && a.f_ == b.f_ && a.e_ == b.e_ && a.arity_ == b.arity_; }
static void same(const Hypergraph& g, const Hypergraph& h) {
  vs_assert(g.nodes_.size() == h.nodes_.size() && g.edges_.size() == h.edges_.size(), "a forest reads back with as many nodes and edges");
  bool n = true, c = true, e = true, f = true, r = true, hh = true;
  for (unsigned i = 0; i < g.nodes_.size(); ++i) { const HG::Node &a = g.nodes_[i], &b = h.nodes_[i]; n &= a.id_ == b.id_ && a.in_edges_ == b.in_edges_ && a.out_edges_ == b.out_edges_; c &= a.cat_ == b.cat_; hh &= a.node_hash == b.node_hash; }
  for (unsigned i = 0; i < g.edges_.size(); ++i) { const HG::Edge &a = g.edges_[i], &b = h.edges_[i];
    e &= a.id_ == b.id_ && a.head_node_ == b.head_node_ && a.tail_nodes_ == b.tail_nodes_ && a.i_ == b.i_ && a.j_ == b.j_ && a.prev_i_ == b.prev_i_ && a.prev_j_ == b.prev_j_;
    f &= same_fv(a.feature_values_, b.feature_values_, NF); r &= !a.rule_ == !b.rule_; if (a.rule_ && b.rule_) { r &= same_rule(*a.rule_, *b.rule_); f &= same_fv(a.rule_->scores_, b.rule_->scores_, NF); } }
  vs_assert(n, "nodes read back with their edges"); vs_assert(c, "categories read back"); vs_assert(hh, "node signatures read back"); vs_assert(e, "edges read back with head, tails and spans"); vs_assert(r, "rules read back"); vs_assert(f, "feature values read back bit for bit");
  vs_assert(h.is_linear_chain_ == g.is_linear_chain_ && h.edges_topo_ == g.edges_topo_, "the graph flags read back");
}
extern "C" void vs_setup() { hg_setup(); std::cerr.setstate(std::ios::failbit); TD::Convert("Y"); TD::Convert("mid"); TD::Convert("N_1"); TD::Convert("N_2"); for (int i = 0; i < 8; ++i) { F0 = FD::Convert(std::string("Ft") + char('a' + i)); } NF = FD::NumFeats();
  for (int i = 0; i < 8; ++i) { TD::Convert("X_" + std::to_string(i)); TD::Convert("Y_" + std::to_string(i)); TD::Convert("N_1_" + std::to_string(i)); TD::Convert("N_2_" + std::to_string(i)); TD::Convert("CAT_" + std::to_string(i)); TD::Convert("[" + std::to_string(i) + "]"); } TD::Convert("<bad0>"); }
static void build(Hypergraph& g, bool nulls) {
#ifdef SHAPES
  Shape S = kShapes[vs_choice("shape", 6)]; std::vector<std::pair<int, std::vector<int> > > es = S.e; int n = S.n;
#else
  Hypergraph t; sym_hg(t, NN, MM, 2); std::vector<std::pair<int, std::vector<int> > > es; int n = t.nodes_.size();
  for (auto& e : t.edges_) es.push_back(std::make_pair(e.head_node_, std::vector<int>(e.tail_nodes_.begin(), e.tail_nodes_.end())));
#endif
  for (int i = 0; i < n; ++i) { HG::Node* v = g.AddNode(-TD::Convert(NC ? (i & 1 ? "N_1" : "N_2") : i & 1 ? "Y" : "X")); if (i == 1 && NC) v->cat_ = 0; if (i < 2) v->node_hash = vs_uint("hash", 0, 0xffffffffu); }
  TRulePtr shared;
  for (unsigned k = 0; k < es.size(); ++k) { TailNodeVector t; for (int x : es[k].second) t.push_back(x);
    TRulePtr r; if (shared && shared->arity_ == (int)t.size() && k == es.size() - 1) r = shared; else if (nulls && k == 1) r.reset(); else r = big_rule(k, t.size());
    if (r) shared = r;
    HG::Edge* e = g.AddEdge(r, t); g.ConnectEdgeToHeadNode(e->id_, es[k].first);
    const int nf = k == 0 ? 8 : k == 1 ? 0 : k == 2 ? 7 : 1; for (int q = 0; q < nf; ++q) e->feature_values_.set_value(1 + (q + k) % 8, k < 2 && q < 2 ? dbl() : 0.5 + q);
    e->i_ = k == 0 ? vs_int("i", -1, 32767) : 1; e->j_ = k == 0 ? vs_int("j", -1, 32767) : 2; e->prev_i_ = k == 0 ? vs_int("pi", -1, 32767) : 3; e->prev_j_ = k == 2 || !k ? vs_int("pj", -1, 32767) : 4;
    if (r && k < 2) r->scores_.set_value(2, dbl()); }
}
static void binary() {
  Hypergraph g; build(g, true); g.is_linear_chain_ = SW; g.edges_topo_ = true;
  Store s; std::iostream io(&s); Hypergraph two; two.AddNode(-TD::Convert("X")); two.AddEdge(big_rule(9, 0), TailNodeVector()); two.ConnectEdgeToHeadNode(0, 0); two.edges_topo_ = true;
  vs_assert(HypergraphIO::WriteToBinary(g, &io), "writing succeeds"); if (vs_choice("twice", 2)) { HypergraphIO::WriteToBinary(two, &io); vs_reach("twice"); }
  const bool tw = s.d.size() > 0 && false; (void)tw;
  Hypergraph h; h.AddNode(-1); vs_assert(HypergraphIO::ReadFromBinary(&io, &h), "reading succeeds"); same(g, h); vs_reach("binary");
  if (s.r < s.d.size()) { Hypergraph k; HypergraphIO::ReadFromBinary(&io, &k); same(two, k); vs_assert(s.r == s.d.size(), "the second forest ends the file"); }
}
static void lengthy() { // rules of up to 64 symbols a side keep every variable in its place
  static const int L[] = {31, 32, 33, 64}; const int nf = L[vs_choice("source", 4)], ne = L[vs_choice("target", 4)], pf = vs_int("position", 0, nf - 1), pe = vs_int("place", 0, ne - 1);
  TRulePtr r(new TRule); r->lhs_ = -TD::Convert("X"); r->arity_ = 1; for (int i = 0; i < nf; ++i) r->f_.push_back(i == pf ? -TD::Convert("Y") : TD::Convert("mid")); for (int i = 0; i < ne; ++i) r->e_.push_back(i == pe ? 0 : TD::Convert("mid"));
  Hypergraph g; g.AddNode(-TD::Convert("Y")); g.AddNode(-TD::Convert("X")); g.ConnectEdgeToHeadNode(g.AddEdge(big_rule(1, 0), TailNodeVector())->id_, 0); g.ConnectEdgeToHeadNode(g.AddEdge(r, TailNodeVector(1, 0))->id_, 1);
  Store s; std::iostream io(&s); vs_assert(HypergraphIO::WriteToBinary(g, &io), "writing succeeds"); Hypergraph h; vs_assert(HypergraphIO::ReadFromBinary(&io, &h), "reading succeeds"); same(g, h); vs_reach("long");
}
// pairs (source yield ||| target yield ||| features) of every derivation of a node
typedef std::vector<WordID> W;
struct Y { W f, e; double fa; bool operator<(const Y& o) const { return f != o.f ? f < o.f : e < o.e; } };
static std::vector<Y> yields(const Hypergraph& g, int v) {
  std::vector<Y> out;
  for (unsigned z = 0; z < g.edges_.size(); ++z) if (g.edges_[z].head_node_ == v) { const HG::Edge& e = g.edges_[z]; std::vector<std::vector<Y> > acc(1);
    for (unsigned t = 0; t < e.tail_nodes_.size(); ++t) { std::vector<Y> k = yields(g, e.tail_nodes_[t]); std::vector<std::vector<Y> > nx; for (auto& a : acc) for (auto& b : k) { nx.push_back(a); nx.back().push_back(b); } acc.swap(nx); }
    for (auto& a : acc) { Y y; y.fa = e.feature_values_.value(1); for (auto& c : a) y.fa += c.fa; int vc = 0;
      for (WordID w : e.rule_->f_) if (w > 0) y.f.push_back(w); else { y.f.insert(y.f.end(), a[vc].f.begin(), a[vc].f.end()); ++vc; }
      for (WordID w : e.rule_->e_) if (w > 0) y.e.push_back(w); else y.e.insert(y.e.end(), a[-w].e.begin(), a[-w].e.end());
      out.push_back(y); } }
  return out;
}
static bool multi_eq(std::vector<Y> a, std::vector<Y> b, bool swapb) { // as multisets
  if (a.size() != b.size()) return false; std::vector<char> used(b.size(), 0);
  for (auto& x : a) { bool hit = false; for (unsigned i = 0; i < b.size() && !hit; ++i) if (!used[i] && x.f == (swapb ? b[i].e : b[i].f) && x.e == (swapb ? b[i].f : b[i].e) && fabs(x.fa - b[i].fa) < 1e-6) { used[i] = 1; hit = true; } if (!hit) return false; }
  return true;
}
static void simple_feats(Hypergraph& g) { for (unsigned k = 0; k < g.edges_.size(); ++k) { g.edges_[k].feature_values_.clear(); g.edges_[k].feature_values_.set_value(1, (k % 3) + 0.25); if (k == 0) g.edges_[k].feature_values_.set_value(1, 0.5 * vs_choice("fv", 2) - 1.5); } }
static void cfg() {
  Hypergraph g; build(g, false); simple_feats(g); std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); HypergraphIO::WriteAsCFG(g); std::cout.rdbuf(old);
  std::istringstream is(os.str()); std::string line; Hypergraph h; for (unsigned i = 0; i < g.nodes_.size(); ++i) h.AddNode(0);
  std::map<WordID, int> cat; for (unsigned i = 0; i < g.nodes_.size(); ++i) cat[-TD::Convert((g.nodes_[i].cat_ ? TD::Convert(-g.nodes_[i].cat_) : std::string("CAT")) + "_" + std::to_string(i))] = i;
  unsigned n = 0;
  while (getline(is, line)) { ++n; TRulePtr r(TRule::CreateRuleSynchronous(line)); vs_assert(!!r, "every printed rule is a rule"); if (!r) return;
    TailNodeVector t; bool ok = cat.count(r->lhs_); for (WordID w : r->f_) if (w < 0) { ok &= cat.count(w) > 0; t.push_back(cat[w]); } vs_assert(ok, "printed rules use the categories of the forest's nodes"); if (!ok) return;
    HG::Edge* e = h.AddEdge(r, t); e->feature_values_ = r->scores_; h.ConnectEdgeToHeadNode(e->id_, cat[r->lhs_]); }
  vs_assert(n == g.edges_.size(), "one rule is printed per edge");
  vs_assert(multi_eq(yields(g, g.nodes_.size() - 1), yields(h, h.nodes_.size() - 1), true), "the printed grammar derives the forest's translations with sides exchanged");
  vs_reach("cfg");
}
extern "C" void vs_harness() { const int c = vs_choice("config", 3); SW = c & 1; NC = c >> 1; const int part = vs_choice("part", c ? 2 : 3); if (part == 1) cfg(); else if (part == 2) lengthy(); else binary(); }
