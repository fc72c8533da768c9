// Restricting a forest to given translations.
#include "hgh.h"
#include "hg_intersect.h"
#include "lattice.h"
static int fA, fC;
extern "C" void vs_setup() { hg_setup(); fA = FD::Convert("A"); fC = FD::Convert("LatticeCost"); TD::Convert("<s>"); TD::Convert("Goal"); TD::Convert("zz"); std::cerr.setstate(std::ios::failbit); }
typedef std::vector<WordID> V;
struct Dv { std::string id; V e, f; }; // a derivation: nested edge numbers and both yields
struct All { // derivations of a graph, with edges named by num(), children listed in the order of the first forest
  const Hypergraph& g; std::map<const TRule*, int> num; bool inv; std::vector<std::vector<Dv> > memo; std::vector<char> done;
  const Hypergraph& orig;
  All(const Hypergraph& h, const Hypergraph& o, bool i) : g(h), inv(i), memo(h.nodes_.size()), done(h.nodes_.size()), orig(o) { }
  const std::vector<Dv>& node(int v, const std::vector<TRulePtr>& rules) {
    if (done[v]) return memo[v]; done[v] = 1; std::vector<Dv> out;
    for (unsigned x = 0; x < g.nodes_[v].in_edges_.size(); ++x) { const HG::Edge& e = g.edges_[g.nodes_[v].in_edges_[x]]; const int k = e.tail_nodes_.size(); int id = -1;
      if (!inv) id = e.id_; else for (unsigned r = 0; r < rules.size(); ++r) if (e.rule_->parent_rule_ == rules[r]) id = r;
      std::vector<std::vector<const Dv*> > acc(1); for (int t = 0; t < k; ++t) { const std::vector<Dv>& s = node(e.tail_nodes_[t], rules); std::vector<std::vector<const Dv*> > nx; for (unsigned a = 0; a < acc.size(); ++a) for (unsigned b = 0; b < s.size(); ++b) { std::vector<const Dv*> y = acc[a]; y.push_back(&s[b]); nx.push_back(y); } acc.swap(nx); }
      for (unsigned a = 0; a < acc.size(); ++a) { Dv d; std::vector<int> tgt; // which tail stands where
        if (id >= 0 && inv) { const V& oe = rules[id]->e_; for (unsigned q = 0; q < oe.size(); ++q) if (oe[q] <= 0) tgt.push_back(-oe[q]); } else for (int t = 0; t < k; ++t) tgt.push_back(t);
        std::vector<std::string> ch(k); for (int t = 0; t < k && t < (int)tgt.size(); ++t) if (tgt[t] < k) ch[tgt[t]] = acc[a][t]->id;
        if (id >= 0) d.id = std::to_string(id) + "("; for (int t = 0; t < k; ++t) d.id += ch[t]; if (id >= 0) d.id += ")";
        const V& me = inv ? e.rule_->f_ : e.rule_->e_; const V& mf = inv ? e.rule_->e_ : e.rule_->f_; int n = 0;
        for (unsigned q = 0; q < me.size(); ++q) if (me[q] > 0) d.e.push_back(me[q]); else { const int t = inv ? n++ : -me[q]; const V& s = acc[a][t]->e; d.e.insert(d.e.end(), s.begin(), s.end()); }
        n = 0; for (unsigned q = 0; q < mf.size(); ++q) if (mf[q] > 0) d.f.push_back(mf[q]); else { const int t = inv ? -mf[q] : n++; const V& s = acc[a][t]->f; d.f.insert(d.f.end(), s.begin(), s.end()); }
        out.push_back(d); } }
    memo[v].swap(out); return memo[v]; }
};
static void edge(Hypergraph& g, int head, const std::vector<int>& tails, int k) { TRulePtr r(new TRule); r->lhs_ = -TD::Convert("X"); r->arity_ = tails.size(); r->e_.push_back(TD::Convert(word(k))); r->f_.push_back(TD::Convert("f" + word(k))); TailNodeVector t; static const int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; const int* p = perms[tails.size() == 3 ? vs_choice("perm", 6) : 0]; for (unsigned i = 0; i < tails.size(); ++i) { t.push_back(tails[i]); r->f_.push_back(-TD::Convert("X")); r->e_.push_back(-p[i]); } g.ConnectEdgeToHeadNode(g.AddEdge(r, t)->id_, head); }
static void extra_hg(Hypergraph& g) { // a rule of three variables in any order, or a long chain of categories that end in digits
  std::vector<int> none, all; if (vs_choice("long", 2)) { for (int i = 0; i < 12; ++i) { g.AddNode(-TD::Convert(i ? "CC" : "CC1")); edge(g, i, i ? std::vector<int>(1, i - 1) : none, i % 3); if (!i) edge(g, 0, none, 1); } vs_reach("long"); }
  else { for (int i = 0; i < 3; ++i) { g.AddNode(-TD::Convert("X")); edge(g, i, none, i); if (i != 1) edge(g, i, none, i + 1); all.push_back(i); } g.AddNode(-TD::Convert("X")); edge(g, 3, all, 0); vs_reach("three"); } }
static void general() {
  Hypergraph g;
#ifdef EXTRA
  extra_hg(g);
#elif defined(SHAPES)
  shape_hg(g, vs_choice("shape", 6));
#else
  sym_hg(g, NN, MM, 2); vs_assume(all_derivable(g)); vs_assume(all_used(g));
#endif
  { const int gn = g.AddNode(-TD::Convert("Goal"))->id_; TailNodeVector t(1, gn - 1); TRulePtr r(new TRule); r->lhs_ = -TD::Convert("Goal"); r->arity_ = 1; r->e_.push_back(0); r->f_.push_back(-TD::Convert("X")); HG::Edge* e = g.AddEdge(r, t); g.ConnectEdgeToHeadNode(e->id_, gn); }
  const int pat = 1 + vs_choice("words", 3), E = g.edges_.size(), N = g.nodes_.size(); std::vector<TRulePtr> rules; std::vector<double> val(E);
  if (g.edges_.size() < 12 && vs_choice("nocat", 2)) for (int v = 0; v + 1 < N; ++v) g.nodes_[v].cat_ = 0;
  for (int k = 0; k < E; ++k) { HG::Edge& e = g.edges_[k]; TRulePtr r(new TRule(*e.rule_)); if (k < E - 1) { r->e_[0] = TD::Convert(word(k % pat)); if (r->arity_ >= 2 && k % 2) { std::reverse(r->e_.begin(), r->e_.end()); } } e.rule_ = r; rules.push_back(r); val[k] = vs_int("value", -3, 3); if (k % 2 == 0) e.feature_values_.set_value(fA, val[k]); e.i_ = k; e.j_ = k + 2; e.prev_i_ = k + 10; }
  Hypergraph in(g); All ai(in, in, false); const std::vector<Dv>& di = ai.node(N - 1, rules);
  V want = di[std::min((int)di.size() - 1, (int)vs_choice("target", 3))].e; const int how = vs_choice("lattice", 4); V wv = want; if (how == 3 && wv.size() > 2) wv.erase(wv.begin() + 1, wv.end() - 1); Lattice tgt(wv.size());
  want = wv; std::vector<V> paths(1, want); for (unsigned i = 0; i < want.size(); ++i) tgt[i].push_back(LatticeArc(want[i], SparseVector<double>(), 1));
  if (how == 1) { const unsigned at = vs_choice("at", want.size()); const WordID w = TD::Convert(word((pat + at) % 3)); if (w == want[at]) vs_stop(); tgt[at].push_back(LatticeArc(w, SparseVector<double>(), 1)); V o = want; o[at] = w; paths.push_back(o); }
  else if (how == 2) { const unsigned at = vs_choice("at", want.size()); tgt[at][0].label = TD::Convert("zz"); paths[0][at] = TD::Convert("zz"); }
  const bool ok = HG::Intersect(tgt, &g);
  std::multiset<std::string> a, b; for (unsigned i = 0; i < di.size(); ++i) for (unsigned p = 0; p < paths.size(); ++p) if (di[i].e == paths[p]) a.insert(di[i].id);
  vs_assert(ok == !a.empty(), "the intersection is empty exactly when no derivation yields the target"); if (!ok || a.empty()) { vs_reach("empty"); return; }
  check_wellformed(g, "the restricted forest is well formed"); All ao(g, in, true); const std::vector<Dv>& dz = ao.node(g.nodes_.size() - 1, rules);
  for (unsigned i = 0; i < dz.size(); ++i) { b.insert(dz[i].id); bool good = false; for (unsigned q = 0; q < di.size(); ++q) good |= di[q].id == dz[i].id && di[q].e == dz[i].e && di[q].f == dz[i].f; vs_assert(good, "a derivation kept has the source and target it had, with the sides exchanged"); }
  vs_assert(a == b, "exactly the derivations that yield the target are kept");
  for (unsigned i = 0; i < g.edges_.size(); ++i) for (int r = 0; r < E; ++r) if (g.edges_[i].rule_->parent_rule_ == rules[r]) { const HG::Edge& e = g.edges_[i]; vs_assert(e.feature_values_.value(fA) == (r % 2 ? 0 : val[r]), "edges keep their features"); vs_assert(e.prev_i_ == r && e.prev_j_ == r + 2, "the source span of an edge becomes its other span"); }
  if (a.size() > 1) vs_reach("several"); vs_reach("general"); if (how == 1) vs_reach("lattice");
}
static void chain() { // lexical translation chains, rules shared between positions
  const int n = 1 + vs_choice("n", 3), m = 2; const WordID w[] = {TD::Convert("wa"), TD::Convert("wb")};
  Hypergraph g; std::map<std::pair<WordID, WordID>, TRulePtr> lex; TRulePtr bin(new TRule("[X] ||| [X,1] [X,2] ||| [1] [2]")); Lattice tgt(n); std::vector<int> src; V t; for (int i = 0; i < n; ++i) { t.push_back(w[vs_choice("t", 2)]); tgt[i].push_back(LatticeArc(t[i], SparseVector<double>(), 1)); }
  const WordID f[] = {TD::Convert("fwa"), TD::Convert("fwb")}; const int share = vs_choice("same source", 2); std::vector<std::vector<int> > lab; int prev = -1; std::vector<int> pos, fr, to;
  const int skip = vs_choice("gap", 2); // the first position lacks its word
  for (int i = 0; i < n; ++i) { const int v = g.AddNode(-TD::Convert("X"))->id_;
    for (int j = 0; j < m; ++j) for (int k = 0; k < 2; ++k) { if (skip && i == 0 && w[k] == t[0]) continue; const WordID s = f[share ? 0 : j]; TRulePtr& r = lex[std::make_pair(s, w[k])]; if (!r) r.reset(TRule::CreateLexicalRule(s, w[k])); HG::Edge* e = g.AddEdge(r, TailNodeVector()); e->i_ = j; e->j_ = j + 1; e->prev_i_ = i; e->prev_j_ = i + 1; e->feature_values_.set_value(fA, 100 * i + 10 * j + k); g.ConnectEdgeToHeadNode(e->id_, v); }
    if (prev >= 0) { const int c = g.AddNode(-TD::Convert("X"))->id_; TailNodeVector tl(2, prev); tl[1] = v; HG::Edge* e = g.AddEdge(bin, tl); g.ConnectEdgeToHeadNode(e->id_, c); prev = c; } else prev = v; }
  { const int gn = g.AddNode(-TD::Convert("Goal"))->id_; TailNodeVector tl(1, gn - 1); TRulePtr r(new TRule("[Goal] ||| [X,1] ||| [1]")); HG::Edge* e = g.AddEdge(r, tl); g.ConnectEdgeToHeadNode(e->id_, gn); }
  g.is_linear_chain_ = true; const bool ok = HG::Intersect(tgt, &g); vs_assert(ok == !skip, "a chain can be restricted when every position has its word"); if (!ok) { vs_reach("empty"); return; }
  check_wellformed(g, "the restricted chain is well formed"); std::set<int> seen; bool good = true;
  for (unsigned i = 0; i < g.edges_.size(); ++i) { const HG::Edge& e = g.edges_[i]; if (e.tail_nodes_.size()) continue; const int x = (int)e.feature_values_.value(fA), p = x / 100, j = x / 10 % 10, k = x % 10; seen.insert(x);
    vs_assert(w[k] == t[p], "a chain keeps only the target's words"); vs_assert(e.prev_i_ == j && e.prev_j_ == j + 1 && e.i_ == p && e.j_ == p + 1, "the spans of a chain are exchanged");
    vs_assert(e.rule_->f_.size() == 1 && e.rule_->e_.size() == 1 && e.rule_->f_[0] == w[k] && e.rule_->e_[0] == f[share ? 0 : j], "every rule kept in a chain has its sides exchanged"); }
  vs_assert((int)seen.size() == n * m, "a chain keeps every way to produce the target"); (void)good; vs_reach("chain");
}
extern "C" void vs_harness() { if (CHAIN) chain(); else general(); }
