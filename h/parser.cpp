// D07: the parse forest of every small input under every sub-grammar of a pool
// holds exactly the derivations the grammar allows.
#include "hgh.h"
#include "decoder/scfg_translator.cc"
#ifndef EA
#define EA 1
#define PB 5
#endif
#ifndef NN
#define NN 3
#endif
static WordID S_, X_, Y_, Z_; static int FL;
struct R { TRulePtr r; int g; }; // grammar 0: spans limited, 1: glue (from 0 only)
struct Arc { int to; WordID w; int id; };
struct O {
  const std::vector<R>& rs; const std::vector<std::vector<Arc> >& in; int maxspan; int n;
  std::map<std::string, std::vector<std::string> > memo;
  O(const std::vector<R>& r, const std::vector<std::vector<Arc> >& i, int m) : rs(r), in(i), maxspan(m), n(i.size()) {}
  static std::string num(int x) { return std::to_string(x); }
  // all derivations of category c over (i,j); key: rule id, span, arc bits, children
  std::vector<std::string> cat(int i, int j, WordID c, int d = 0) {
    std::string k = num(i) + "," + num(j) + "," + num(c); auto it = memo.find(k); if (it != memo.end()) return it->second;
    std::vector<std::string> out;
    for (unsigned q = 0; q < rs.size(); ++q) if (rs[q].r->lhs_ == c) {
      const TRule& r = *rs[q].r;
      if (!r.IsUnary()) { if (rs[q].g == 0 ? (j - i > maxspan) : (i != 0)) continue; }
      std::vector<std::string> m; match(r, 0, i, j, i, 0, "", m, q);
      for (auto& x : m) out.push_back("(" + num(q) + " " + num(i) + "-" + num(j) + x + ")");
    }
    memo[k] = out; return out;
  }
  void match(const TRule& r, unsigned p, int at, int j, int i, int arcs, const std::string& kids, std::vector<std::string>& out, int q) {
    if (p == r.f_.size()) { if (at == j) out.push_back(" #" + num(arcs) + kids); return; }
    if (r.f_[p] > 0) { if (at < n) for (auto& a : in[at]) if (a.w == r.f_[p] && a.to <= j) match(r, p + 1, a.to, j, i, arcs + a.id, kids, out, q); return; }
    for (int k = at + 1; k <= j; ++k) {
      if (k - at == j - i && r.f_.size() > 1) continue;
      for (auto& s : cat(at, k, r.f_[p])) match(r, p + 1, k, j, i, arcs, kids + s, out, q);
    }
  }
};
static std::vector<std::string> forest(const Hypergraph& h, int v, const std::vector<R>& rs) {
  std::vector<std::string> out;
  for (unsigned z = 0; z < h.nodes_[v].in_edges_.size(); ++z) {
    const HG::Edge& e = h.edges_[h.nodes_[v].in_edges_[z]]; int q = -1; for (unsigned i = 0; i < rs.size(); ++i) if (rs[i].r == e.rule_) q = i;
    std::vector<std::string> acc(1);
    for (unsigned t = 0; t < e.tail_nodes_.size(); ++t) { std::vector<std::string> k = forest(h, e.tail_nodes_[t], rs), nx; for (auto& a : acc) for (auto& b : k) nx.push_back(a + b); acc.swap(nx); }
    const double f = e.feature_values_.value(FL);
    for (auto& a : acc) out.push_back(q < 0 ? a : "(" + O::num(q) + " " + O::num(e.i_) + "-" + O::num(e.j_) + " #" + O::num((int)floor(f)) + a + ")");
  }
  return out;
}
extern "C" void vs_setup() {
  SetSilent(true); std::cerr.setstate(std::ios::failbit); hg_setup(); S_ = -TD::Convert("S"); X_ = -TD::Convert("X"); Y_ = -TD::Convert("Y"); Z_ = -TD::Convert("Z"); TD::Convert("Goal"); TD::Convert("a"); TD::Convert("b"); TD::Convert("c"); FL = FD::Convert("Lat");
  for (int i = 0; i < 16; ++i) FD::Convert(std::string("R") + char('a' + i)); TD::Convert("*EPS*"); FD::Convert("Glue"); FD::Convert("PassThrough");
}
static void check(const std::vector<R>& rs, const std::vector<GrammarPtr>& gs, const Lattice& L, const std::vector<std::vector<Arc> >& in, int maxspan) {
  const int n = in.size(); Hypergraph h; ExhaustiveBottomUpParser p("S", gs);
  const bool ok = p.Parse(L, &h);
  O o(rs, in, maxspan); std::vector<std::string> want = o.cat(0, n, S_);
  vs_assert(ok == !want.empty(), "parser: the input is parsed exactly when the grammar derives it");
  if (!ok) return;
  if (want.size() > 1) vs_reach("ambiguous"); vs_reach("parsed");
  const int goal = h.nodes_.size() - 1;
  vs_assert(h.nodes_[goal].cat_ == -TD::Convert("Goal"), "parser: the goal node comes last");
  std::vector<int> nin(h.nodes_.size(), 0);
  for (unsigned i = 0; i < h.edges_.size(); ++i) { const HG::Edge& e = h.edges_[i]; vs_assert(e.id_ == (int)i, "parser: edges know their place");
    for (unsigned t = 0; t < e.tail_nodes_.size(); ++t) { vs_assert(e.tail_nodes_[t] < e.head_node_, "parser: antecedents precede consequents"); ++nin[e.tail_nodes_[t]];
      const HG::Node& tn = h.nodes_[e.tail_nodes_[t]]; int seen = 0; WordID want_c = 0; for (auto w : e.rule_->f_) if (w < 0) { if (seen == (int)t) want_c = w; ++seen; } vs_assert(tn.cat_ == want_c, "parser: an antecedent has the category the rule asks for"); }
    vs_assert(h.nodes_[e.head_node_].cat_ == e.rule_->lhs_, "parser: a node has the category of its rules"); }
  for (int v = 0; v < goal; ++v) vs_assert(nin[v] > 0, "parser: every node is used by a derivation of the goal");
  std::vector<std::string> got = forest(h, goal, rs); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
  vs_assert(std::unique(got.begin(), got.end()) == got.end(), "parser: no derivation occurs twice");
  got = forest(h, goal, rs); std::sort(got.begin(), got.end());
  vs_assert(got == want, "parser: the forest holds exactly the derivations of the grammar");
  for (unsigned i = 0; i < h.edges_.size(); ++i) { const HG::Edge& e = h.edges_[i];
    for (unsigned q = 0; q < rs.size(); ++q) { const int f = FD::Convert(std::string("R") + char('a' + q)); vs_assert(e.feature_values_.value(f) == (rs[q].r == e.rule_ ? rs[q].r->scores_.value(f) : 0.0), "parser: an edge has the features of its rule"); }
    const double lf = e.feature_values_.value(FL); vs_assert(e.rule_->lhs_ == -TD::Convert("Goal") ? lf == 0 : lf - floor(lf) == (e.rule_->scores_.value(FL)), "parser: rule and lattice features add up"); }
}
extern "C" void vs_harness() {
  static const char* const pool[] = { "[X] ||| a ||| A", "[X] ||| b ||| B1", "[X] ||| b ||| B2", "[X] ||| a [X] ||| C [1]", "[X] ||| [X] b [X] ||| [2] D [1]", "[Y] ||| [X] [X] ||| [2] [1]", "[Y] ||| b a ||| E", "[X] ||| [Y] ||| [1]", "[Z] ||| [Y] ||| [1]", "[S] ||| [Z] [X] ||| [1] [2]", "[S] ||| [Y] ||| [1]" };
  const int NP = 11;
  const int mode = vs_choice("mode", 3); // 0: sentence with span limit, 1: sentence with glue, 2: lattice
  unsigned mask;
  if (mode == 0) { mask = vs_choice("mask", 1 << PB); mask = (mask & 31) << 3 | (mask >> 5) << 2 | 3 | (vs_choice("last", 2) ? 1 << 10 : 1 << 9); if (mask & 1 << 9) mask |= 1 << 8; }
  else if (mode == 1) { mask = vs_choice("mask", 1 << (PB - 1)); mask = (mask & 15) << 4 | (mask >> 4) << 2 | 3; } // no [Z], [S]
  else mask = (vs_choice("mask", 1 << 4) << 3) | 3 | 1 << 7 | 1 << 8 | 1 << 10;
  std::vector<R> rs; TextGrammar* tg = new TextGrammar; GrammarPtr tgp(tg); std::vector<GrammarPtr> gs(1, tgp);
  int nr = 0; std::vector<std::string> nm;
  for (int i = 0; i < NP; ++i) if (mask >> i & 1) { R r; r.r.reset(new TRule(pool[i])); r.g = 0; const int q = rs.size();
    r.r->scores_.set_value(FD::Convert(std::string("R") + char('a' + q)), (double)vs_int(("s" + O::num(q)).c_str(), 1, 50)); if (q % 2) r.r->scores_.set_value(FL, 0.5); tg->AddRule(r.r); rs.push_back(r); }
  if (mode == 1) { GlueGrammar* gg = new GlueGrammar("S", "X"); gs.push_back(GrammarPtr(gg));
    std::vector<TRulePtr> all = gg->GetAllUnaryRules(); vs_assert(all.size() == 1, "glue: one stop rule"); R a; a.r = all[0]; a.g = 1; rs.push_back(a);
    const GrammarIter* it = gg->GetRoot()->Extend(S_); it = it ? it->Extend(X_) : 0; vs_assert(it && it->GetRules() && it->GetRules()->GetNumRules() == 1, "glue: one glue rule"); a.r = it->GetRules()->GetIthRule(0); vs_assert(a.r->scores_.value(FD::Convert("Glue")) == 1.0, "glue: the glue rule has its feature"); rs.push_back(a); }
  std::vector<std::vector<Arc> > in; Lattice L; int maxspan = 10; const WordID A = TD::Convert("a"), B = TD::Convert("b");
  if (mode < 2) {
    const int n = 1 + vs_choice("len", NN); std::string t; for (int i = 0; i < n; ++i) { const int w = vs_choice("word", 2); Arc a; a.to = i + 1; a.w = w ? B : A; a.id = 0; in.push_back(std::vector<Arc>(1, a)); t += w ? " b" : " a"; }
    LatticeTools::ConvertTextOrPLF(t, &L); maxspan = 1 + vs_choice("span", n); tg->SetMaxSpan(maxspan);
  } else {
    // up to three nodes; a unit chain plus up to two arcs that skip a node or run in parallel
    const int n = 2 + vs_choice("len", NN - 1); in.resize(n); L.resize(n); int id = 1;
    struct Q { int f, t; WordID w; }; std::vector<Q> q;
    for (int i = 0; i < n; ++i) { Q z = { i, i + 1, vs_choice("word", 2) ? B : A }; q.push_back(z); }
    for (int k = 0; k < EA; ++k) { const int f = vs_choice("from", n), len = 1 + vs_choice("skip", n - f > 1 ? 2 : 1); Q z = { f, f + len, vs_choice("word2", 2) ? B : A }; q.push_back(z); }
    for (auto& z : q) { Arc a; a.to = z.t; a.w = z.w; a.id = id; in[z.f].push_back(a); SparseVector<double> f; f.set_value(FL, id); L[z.f].push_back(LatticeArc(z.w, f, z.t - z.f)); id *= 2; }
    vs_reach("lattice");
  }
  check(rs, gs, L, in, maxspan);
  if (mode == 0) { // pass-through rules: one per distinct word
    PassThroughGrammar pt(L, "X"); std::set<WordID> ws; for (auto& v : in) for (auto& a : v) ws.insert(a.w);
    for (WordID w : { A, B }) { const GrammarIter* it = pt.GetRoot()->Extend(w); vs_assert(!!it == !!ws.count(w), "pass-through: a rule for every word of the input and no other");
      if (it) { vs_assert(it->GetRules() && it->GetRules()->GetNumRules() == 1, "pass-through: one rule per word"); TRulePtr r = it->GetRules()->GetIthRule(0); vs_assert(r->e_ == r->f_ && r->lhs_ == X_ && r->scores_.value(FD::Convert("PassThrough")) == 1.0, "pass-through: a word is copied"); } } }
}
