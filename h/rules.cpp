// Rule text: reading, printing, substitution, serialization, grammars, coarse-to-fine levels.
#include "hgh.h"
#include "grammar.h"
#include "rule_lexer.h"
#include "tree_fragment.h"
#include <sstream>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
static const char* kLhs[] = {"X", "Goal", "NP-SBJ"};
static const char* kW[] = {"a", "|b", "1"};
extern "C" void vs_setup() { SetSilent(true); for (int i = 0; i < 3; ++i) { TD::Convert(kLhs[i]); TD::Convert(kW[i]); FD::Convert("PhraseModel_" + std::to_string(i)); } FD::Convert("F1"); FD::Convert("F2"); std::cerr.setstate(std::ios::failbit); }
struct R { WordID lhs; std::vector<WordID> f, e; std::map<int, double> s; std::vector<std::pair<int, int> > a; int ar; std::string text; };
static const double kV[] = {0, 1, -0.25, 1024, -1e-3};
static const char* kVs[] = {"0", "+1.", "-2.5e-1", "1.024E3", "-0.001"};
static void build(R& r, int fl, int nw, bool idx, bool bare, int feats, int als) {
  const char* L = kLhs[fl == 1 && !feats ? vs_choice("lhs", 3) : 0]; r.lhs = -TD::Convert(L); r.text = std::string("[") + L + "] ||| "; r.ar = 0;
  std::vector<const char*> nts;
  for (int i = 0; i < fl; ++i) { const int k = feats ? 0 : vs_choice("f", 3); if (i) r.text += i == 1 ? " " : " \t ";
    if (k == 0) { r.f.push_back(TD::Convert(kW[i % 3])); r.text += kW[i % 3]; }
    else { const char* N = kLhs[k == 1 ? 0 : 2]; nts.push_back(N); ++r.ar; r.f.push_back(-TD::Convert(N)); r.text += std::string("[") + N + (idx ? "," + std::to_string(r.ar) : "") + "]"; } }
  r.text += " ||| ";
  std::vector<char> used(r.ar); int words = nw, left = r.ar; bool first = true;
  while (words + left) { int k = vs_choice("e", (words ? 1 : 0) + left); if (!first) r.text += " "; first = false;
    if (words && k == 0) { r.e.push_back(TD::Convert(kW[words % 3])); r.text += kW[words % 3]; --words; continue; }
    if (words) --k; int v = 0; for (;; ++v) if (!used[v] && k-- == 0) break;
    used[v] = 1; --left; r.e.push_back(-v); r.text += bare ? "[" + std::to_string(v + 1) + "]" : std::string("[") + nts[v] + "," + std::to_string(v + 1) + "]"; }
  const char* names[] = {"F1", "F2", "PhraseModel_0", "PhraseModel_1"};
  if (feats) { r.text += " |||"; for (int i = 0; i < feats; ++i) { const bool named = vs_choice("named", 2); const int v = (i + vs_choice("value", 2) * 2) % 5;
      r.text += (i ? (named ? ";" : " ") : " "); if (named) r.text += std::string(names[i]) + "="; r.text += kVs[v];
      r.s[FD::Convert(named ? std::string(names[i]) : "PhraseModel_" + std::to_string(i))] = kV[v]; } }
  if (als) { if (!feats) r.text += " |||"; r.text += " |||"; for (int i = 0; i < als; ++i) { const int s = i ? 12 : vs_choice("as", 2), t = i ? 0 : 10 * vs_choice("at", 2); r.text += " " + std::to_string(s) + "-" + std::to_string(t); r.a.push_back(std::make_pair(s, t)); } }
}
static void same(const TRule& t, const R& r, const char* what, bool feats = true) {
  bool ok = t.lhs_ == r.lhs && t.f_ == r.f && t.e_ == r.e && t.Arity() == r.ar;
  if (feats) { ok &= t.scores_.size() <= r.s.size() && t.a_.size() == r.a.size(); for (std::map<int, double>::const_iterator i = r.s.begin(); i != r.s.end(); ++i) ok &= t.scores_.value(i->first) == i->second;
    for (unsigned i = 0; i < r.a.size() && i < t.a_.size(); ++i) ok &= t.a_[i].s_ == r.a[i].first && t.a_[i].t_ == r.a[i].second; }
  vs_assert(ok, what);
}
static void text() {
  R r; const int mode = vs_choice("part", 2);
  if (mode == 0) build(r, 1 + vs_choice("flen", FL), vs_choice("words", 2), vs_choice("notation", 2), vs_choice("bare", 2), 0, 0);
  else build(r, 1, 1, true, false, 1 + vs_choice("feats", 3), vs_choice("als", 3));
  if (r.e.empty()) return;
  TRule t; vs_assert(t.ReadFromString(r.text), "a well-formed rule is read"); same(t, r, "a rule reads as written");
  int fw = 0, ew = 0; for (unsigned i = 0; i < r.f.size(); ++i) fw += r.f[i] > 0; for (unsigned i = 0; i < r.e.size(); ++i) ew += r.e[i] > 0;
  vs_assert(t.FWords() == fw && t.EWords() == ew && t.FLength() == (int)r.f.size() && t.ELength() == (int)r.e.size(), "a rule counts its words");
  vs_assert(t.IsUnary() == (r.f.size() == 1 && r.ar == 1), "a rule knows whether it is unary"); vs_assert(t.IsGoal() == (r.lhs == -TD::Convert("Goal")), "a rule knows whether it builds the goal");
  TRule u; vs_assert(u.ReadFromString(t.AsString()), "a printed rule is read back"); if (mode == 0 || (r.s.size() && t.scores_.size())) same(u, r, "a printed rule reads back the same");
  if (mode == 1) { TRule q; q.ReadFromString(t.AsString(false)); same(q, r, "a rule printed without features keeps both sides", false); vs_assert(q.scores_.empty(), "a rule printed without features has none"); }
  TRule c(t); c.ComputeArity(); same(c, r, "a copied rule is the same and its arity can be recomputed");
  { std::unique_ptr<TRule> s(TRule::CreateRuleSynchronous(r.text)); vs_assert(s.get() != 0, "a synchronous rule can be created"); if (s) same(*s, r, "a synchronous rule reads as written"); }
  if (mode == 1) { const std::string body = r.text.substr(r.text.find("|||") + 4); if (!r.ar) { std::unique_ptr<TRule> p(TRule::CreateRulePhrasetable(body)); vs_assert(p.get() != 0, "a phrase table line is a rule"); if (p) { R x = r; x.lhs = -TD::Convert("X"); same(*p, x, "a phrase table line is a rule for X"); } else vs_reach("phrase"); vs_reach("phrase"); } vs_reach("feats"); }
  vs_reach("text");
}
static void wide() { // rules of nine to thirteen variables, the target in any rotation, forwards or backwards
  const int n = 9 + vs_choice("variables", 5), rot = vs_choice("rotation", 13), back = vs_choice("backwards", 2), idx = vs_choice("notation", 2), bare = vs_choice("bare", 2); if (rot >= n) return;
  R r; r.lhs = -TD::Convert("X"); r.ar = n; r.text = "[X] |||"; 
  for (int i = 0; i < n; ++i) { const char* N = kLhs[i % 2 ? 2 : 0]; r.f.push_back(-TD::Convert(N)); r.text += std::string(" [") + N + (idx ? "," + std::to_string(i + 1) : "") + "]"; if (i == 4) { r.f.push_back(TD::Convert("a")); r.text += " a"; } }
  r.text += " |||";
  for (int i = 0; i < n; ++i) { const int v = ((back ? n - 1 - i : i) + rot) % n; r.e.push_back(-v); r.text += bare ? " [" + std::to_string(v + 1) + "]" : std::string(" [") + kLhs[v % 2 ? 2 : 0] + "," + std::to_string(v + 1) + "]"; }
  TRule t; vs_assert(t.ReadFromString(r.text), "a well-formed rule is read"); same(t, r, "a rule of many variables reads as written");
  TRule u; vs_assert(u.ReadFromString(t.AsString()), "a printed rule is read back"); same(u, r, "a printed rule of many variables reads back the same"); vs_reach("wide");
}
static void subst() { // substitution: symbolic words
  const int ar = vs_choice("arity", 4); R r; TRule t; t.lhs_ = -TD::Convert("X"); t.arity_ = ar;
  std::vector<int> perm; for (int i = 0; i < ar; ++i) perm.push_back(i); for (int i = 0; i < ar; ++i) std::swap(perm[i], perm[i + vs_choice("perm", ar - i)]);
  const int pos = vs_choice("pos", ar + 1); const WordID w = vs_int("word", 1, 1 << 20), w2 = vs_int("word", 1, 1 << 20);
  for (int i = 0; i <= ar; ++i) { if (i == pos) { t.e_.push_back(w); t.f_.push_back(w2); } if (i < ar) { t.e_.push_back(-perm[i]); t.f_.push_back(-TD::Convert("X")); } }
  std::vector<std::vector<WordID> > a(ar); std::vector<const std::vector<WordID>*> p; for (int i = 0; i < ar; ++i) { const int n = vs_choice("len", 3); for (int k = 0; k < n; ++k) a[i].push_back(vs_int("sub", 1, 1 << 20)); p.push_back(&a[i]); }
  std::vector<WordID> e(2, 5), f(1, 6); t.ESubstitute(p, &e); t.FSubstitute(p, &f);
  std::vector<WordID> we, wf; for (int i = 0; i <= ar; ++i) { if (i == pos) { we.push_back(w); wf.push_back(w2); } if (i < ar) { we.insert(we.end(), a[perm[i]].begin(), a[perm[i]].end()); wf.insert(wf.end(), a[i].begin(), a[i].end()); } }
  vs_assert(e.size() == we.size() && f.size() == wf.size(), "substitution uses every antecedent once"); if (e.size() != we.size() || f.size() != wf.size()) return;
  for (unsigned i = 0; i < e.size(); ++i) vs_assert(e[i] == we[i], "target substitution follows the variables' indices");
  for (unsigned i = 0; i < f.size(); ++i) vs_assert(f[i] == wf[i], "source substitution follows the order of the source side");
  vs_reach("subst");
}
static void mono() {
  const int n = 1 + vs_choice("len", FL); std::string s = "[NP-SBJ] |||"; std::vector<WordID> f, e; int nt = 0;
  { TRule stale("[X] ||| a ||| 1 a 1 a"); (void)stale; }
  for (int i = 0; i < n; ++i) { if (vs_choice("f", 2)) { s += " [X]"; f.push_back(-TD::Convert("X")); e.push_back(-nt++); } else { s += " a"; f.push_back(TD::Convert("a")); e.push_back(TD::Convert("a")); } }
  const bool ft = vs_choice("feat", 2); if (ft) s += " ||| F1=0.5";
  std::unique_ptr<TRule> t(TRule::CreateRuleMonolingual(s));
  vs_assert(t->f_ == f && t->e_ == e && t->Arity() == nt && t->lhs_ == -TD::Convert("NP-SBJ"), "a monolingual rule has the same both sides, variables in order");
  vs_assert(t->scores_.value(FD::Convert("F1")) == (ft ? 0.5 : 0), "a monolingual rule keeps its features"); vs_reach("mono");
}
struct Got { TRulePtr r; unsigned l; TRulePtr c; };
static void cb(const TRulePtr& r, const unsigned l, const TRulePtr& c, void* x) { Got g; g.r = r; g.l = l; g.c = c; ((std::vector<Got>*)x)->push_back(g); }
static void grammar() { // files: levels, last line without a newline, one after the other
  static const char* lines[] = {"[X] ||| a [X,1] ||| [1] a ||| F1=1", "[X] ||| a [NP-SBJ,1] ||| [1] a ||| F1=2", "[NP-SBJ] ||| [X] ||| [1]", "[X] ||| a ||| a ||| 0.5 2 ||| 0-0"};
  for (int file = 0; file < 2; ++file) {
    const int n = vs_choice("lines", NL + 1); std::string s; std::vector<int> id, lv; 
    for (int i = 0; i < n; ++i) { int k = vs_choice("line", 4), l = 0; if (i && k < 2 && id.back() < 2) l = vs_choice("level", lv.back() + 2); s += std::string(l, ' ') + lines[k]; id.push_back(k); lv.push_back(l); if (i + 1 < n || file || !vs_choice("nonl", 2)) s += "\n"; }
    std::istringstream in(s); std::vector<Got> got; RuleLexer::ReadRules(&in, cb, "g", &got);
    vs_assert((int)got.size() == n, "every line of a grammar is a rule, the last with or without its newline"); if ((int)got.size() != n) return;
    for (int i = 0; i < n; ++i) { TRule want(lines[id[i]]); vs_assert(*got[i].r == want && got[i].r->scores_ == want.scores_ && got[i].r->a_.size() == want.a_.size() && got[i].r->Arity() == want.Arity(), "the rules of a grammar come in order, each as written");
      vs_assert((int)got[i].l == lv[i], "leading blanks give the level"); int p = -1; for (int j = 0; j < i; ++j) if (lv[j] == lv[i] - 1) p = j;
      vs_assert(lv[i] ? got[i].c == got[p].r : !got[i].c, "a fine rule names the last rule one level above as its coarse rule"); }
    std::istringstream in2(s); TextGrammar g(&in2); 
    std::vector<std::string> top, un, want, wun; int mx = 0;
    for (int i = 0; i < n; ++i) { mx = std::max(mx, lv[i]); if (lv[i]) continue; if (id[i] == 2) wun.push_back(got[i].r->AsString()); else want.push_back(got[i].r->AsString()); }
    for (unsigned i = 0; i < g.GetAllUnaryRules().size(); ++i) un.push_back(g.GetAllUnaryRules()[i]->AsString());
    const WordID a = TD::Convert("a"), X = -TD::Convert("X"), P = -TD::Convert("NP-SBJ"); const GrammarIter* it = g.GetRoot()->Extend(a);
    const GrammarIter* ends[3] = {it, it ? it->Extend(X) : 0, it ? it->Extend(P) : 0};
    for (int q = 0; q < 3; ++q) if (ends[q] && ends[q]->GetRules()) for (int i = 0; i < ends[q]->GetRules()->GetNumRules(); ++i) { const TRulePtr r = ends[q]->GetRules()->GetIthRule(i); std::vector<WordID> path(1, a); if (q) path.push_back(q == 1 ? X : P); vs_assert(r->f_ == path, "a rule is found under its source side"); top.push_back(r->AsString()); }
    std::sort(top.begin(), top.end()); std::sort(want.begin(), want.end()); std::sort(un.begin(), un.end()); std::sort(wun.begin(), wun.end());
    vs_assert(top == want && un == wun, "a grammar holds exactly its top-level rules"); vs_assert((int)g.GetCTFLevels() == mx, "a grammar knows how many levels it has");
    vs_assert(g.GetUnaryRulesForRHS(X).size() == wun.size() && g.GetUnaryRulesForRHS(P).empty(), "unary rules are indexed by the category they rewrite");
    if (mx) vs_reach("levels"); }
  vs_reach("grammar");
}
extern "C" void vs_harness() { switch (vs_choice("kind", 5)) { case 0: text(); break; case 4: wide(); break; case 1: subst(); break; case 2: mono(); break; default: grammar(); } }
