// D10: lattices in Python notation.
#include "hgh.h"
#include "decoder/hg_io.h"
#include "decoder/lattice.h"
#include <cmath>
using std::string; using std::vector;
struct A { string label; vector<std::pair<string, string> > f; int d; };
static const char al[] = {'a', '\'', '\\', ',', ')', ' ', '(', '{', (char)0xc3};
static const char* nums[] = {"0.5", "-1.25", "0", "3e-2", "-0.1", "7"};
extern "C" void vs_setup() { SetSilent(true); std::cerr.setstate(std::ios::failbit); hg_setup(); }
static string esc(const string& s) { string o; for (char c : s) { if (c == '\'' || c == '\\') o += '\\'; o += c; } return o; }
static string text(const vector<vector<A> >& L, int style, const string& sp) {
  const bool trail = style & 1; string o = "(";
  for (unsigned i = 0; i < L.size(); ++i) { o += "("; for (unsigned j = 0; j < L[i].size(); ++j) { const A& a = L[i][j]; o += "('" + esc(a.label) + "'," + sp;
      if (a.f.size() && a.f[0].first == "#") { for (auto& x : a.f) o += x.second + sp + "," + sp; }
      else { o += "{"; for (unsigned q = 0; q < a.f.size(); ++q) o += (q ? "," + sp : "") + ("'" + esc(a.f[q].first) + "':" + sp + a.f[q].second); if (trail && a.f.size()) o += ","; o += "}" + sp + ","; }
      o += std::to_string(a.d) + ")"; if (trail || j + 1 < L[i].size()) o += "," + (j + 1 < L[i].size() ? sp : string()); }
    o += ")"; if (trail || i + 1 < L.size()) o += "," + (i + 1 < L.size() ? sp : string()); }
  return o + ")";
}
static void same(const Lattice& l, const vector<vector<A> >& L, bool feats) {
  vs_assert(l.size() == L.size(), "a lattice has one position per column"); if (l.size() != L.size()) return;
  for (unsigned i = 0; i < L.size(); ++i) { vs_assert(l[i].size() == L[i].size(), "every column has its alternatives"); if (l[i].size() != L[i].size()) return;
    for (unsigned j = 0; j < L[i].size(); ++j) { const LatticeArc& a = l[i][j]; const A& w = L[i][j];
      vs_assert(TD::Convert(a.label) == w.label, "an arc carries its word"); vs_assert(a.dist2next == w.d, "an arc spans its number of columns");
      if (feats) { bool ok = a.features.size() == w.f.size(); for (unsigned q = 0; q < w.f.size(); ++q) { const string n = w.f[q].first == "#" ? "LatticeCost_" + std::to_string(q) : w.f[q].first; ok &= a.features.value(FD::Convert(n)) == (float)atof(w.f[q].second.c_str()); } vs_assert(ok, "an arc carries its features"); } } }
}
static vector<std::pair<string, string> > feats(int k) {
  vector<std::pair<string, string> > f;
  const int v = vs_choice("cost", 6);
  if (k == 0) f.push_back(std::make_pair("#", nums[v])); else if (k == 1) { f.push_back(std::make_pair("#", nums[v])); f.push_back(std::make_pair("#", nums[(v + 1) % 6])); }
  else { const int nf = k - 2; if (nf > 0) f.push_back(std::make_pair("Ft", nums[v])); if (nf > 1) f.push_back(std::make_pair("It's", nums[(v + 2) % 6])); }
  return f;
}
static string label(int k) { if (k < 0) { const int n = 1 + vs_choice("len", 2); string s; for (int i = 0; i < n; ++i) s += al[vs_choice("char", sizeof al)]; return s; } return word(k); }
static void distances(const Lattice& l) {
  const int n = l.size();
  for (int i = 0; i < n; ++i) { vector<int> d(n + 1, -1); d[i] = 0; for (int p = i; p < n; ++p) if (d[p] >= 0) for (auto& a : l[p]) { const int t = p + a.dist2next; if (t <= n && (d[t] < 0 || d[t] > d[p] + 1)) d[t] = d[p] + 1; }
    for (int j = i + 1; j <= n; ++j) if (d[j] > 0) vs_assert(l.Distance(i, j) == d[j], "the distance of two positions is the fewest arcs between them"); }
}
static void read() { // one interesting arc, notation variants
  vector<vector<A> > L(1 + vs_choice("cols", 2)); for (unsigned i = 0; i < L.size(); ++i) { A a; a.label = word(i); a.f.push_back(std::make_pair("#", "1")); a.d = 1; L[i].push_back(a); }
  A a; const int what = vs_choice("what", 2); a.label = label(what ? 5 : -1); a.f = what ? feats(vs_choice("notation", 5)) : vector<std::pair<string, string> >(1, std::make_pair("#", "0.5")); a.d = (int)L.size();
  if (vs_choice("second", 2)) L[0].push_back(a); else L[0].insert(L[0].begin(), a);
  const int style = what ? vs_choice("style", 2) : 0; Lattice l; const string t = text(L, style, what && vs_choice("spaces", 2) ? " " : "");
  vs_assert(LatticeTools::LooksLikePLF(t), "lattices are recognised"); LatticeTools::ConvertTextOrPLF(t, &l); same(l, L, true); distances(l); vs_reach("read");
}
static void shape() { // every small lattice with at most two arcs per column
  const int n = 1 + vs_choice("cols", NN); vector<vector<A> > L(n); int k = 0;
  vector<char> used(n + 1, 0); used[n] = 0;
  for (int i = 0; i < n; ++i) { const int na = 1 + vs_choice("arcs", 2); for (int j = 0; j < na; ++j) { A a; a.label = word(k % 10); a.f.push_back(std::make_pair("#", nums[k % 6])); a.d = 1 + vs_choice("span", n - i); used[i + a.d] = 1; L[i].push_back(a); ++k; } }
  vs_assume(used[n]);
  Lattice l; const string t = text(L, 1, ""); LatticeTools::ConvertTextOrPLF(t, &l); same(l, L, true); distances(l);
  Lattice back; HypergraphIO::PLFtoLattice(HypergraphIO::AsPLF(l, true), &back); same(back, L, true); // costs of these lattices have few digits
  Hypergraph g; HypergraphIO::ReadFromPLF(t, &g); check_wellformed(g, "the lattice forest is well formed");
  bool ok = g.nodes_.size() == (unsigned)n + 1; vs_assert(ok, "a lattice forest has a node per position");
  for (auto& e : g.edges_) e.edge_prob_.logeq(0.25 * (e.id_ % 5) - 1);
  Hypergraph h; HypergraphIO::ReadFromPLF(HypergraphIO::AsPLF(g, true), &h); vs_assert(h.nodes_.size() == g.nodes_.size() && h.edges_.size() == g.edges_.size(), "a written lattice forest reads back with its arcs");
  for (unsigned i = 0; i < g.edges_.size() && i < h.edges_.size(); ++i) vs_assert(h.edges_[i].head_node_ == g.edges_[i].head_node_ && h.edges_[i].tail_nodes_ == g.edges_[i].tail_nodes_ && h.edges_[i].rule_->e_ == g.edges_[i].rule_->e_ && fabs(h.edges_[i].feature_values_.value(FD::Convert("LatticeCost_0")) - log(g.edges_[i].edge_prob_)) < 1e-5, "a written lattice forest reads back with its words and costs");
  vs_reach("shape");
}
static void sentence() { // plain text
  string s; const int n = vs_choice("chars", 5); for (int i = 0; i < n; ++i) s += "ab ("[vs_choice("c", 4)]; vector<string> w; string cur; for (char c : s + " ") if (c == ' ') { if (cur.size()) w.push_back(cur); cur.clear(); } else cur += c;
  Lattice l; LatticeTools::ConvertTextOrPLF(s, &l); vs_assert(l.size() == w.size(), "a sentence has a position per word"); for (unsigned i = 0; i < w.size() && i < l.size(); ++i) vs_assert(l[i].size() == 1 && TD::Convert(l[i][0].label) == w[i] && l[i][0].dist2next == 1 && l[i][0].features.empty(), "a sentence is a chain of its words"); vs_assert(IsSentence(l), "a chain is a sentence"); distances(l); vs_reach("sentence");
}
extern "C" void vs_harness() { const int p = vs_choice("part", 3); if (p == 0) read(); else if (p == 1) shape(); else sentence(); }
