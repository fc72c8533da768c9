// Line search for error minimisation: upper envelopes over a forest, error surfaces, the best point of the line.
#include "hgh.h"
#include <iostream>
#include <sstream>
#include <cmath>
#include <limits>
#include <boost/shared_ptr.hpp>
#include "inside_outside.h"
#include "mert_geometry.h"
#include "error_surface.h"
#include "line_optimizer.h"
#include "ces.h"
#include "ns.h"
static int fA, fB;
extern "C" void vs_setup() { hg_setup(); std::cerr.setstate(std::ios::failbit); fA = FD::Convert("A"); fB = FD::Convert("B"); }
struct Sum : public EvaluationMetric { Sum() : EvaluationMetric("SUM") {} ~Sum() {} float ComputeScore(const SufficientStats& s) const { return s[0]; } };
typedef std::vector<WordID> Y;
struct Eval : public SegmentEvaluator { mutable std::map<Y, std::vector<float> > known; // what a translation is worth: two numbers of its own
  void Evaluate(const Y& h, SufficientStats* o) const { std::vector<float>& v = known[h]; if (v.empty()) { v.push_back(vs_fix("worth", 0, 7, 0)); v.push_back(known.size() == 1 && h.size() ? 0 : 2); } o->id_ = "SUM"; o->fields = v; } };
static Y yield(const Hypergraph& g, const DV& d) { std::vector<Y> st; for (unsigned i = 0; i < d.size(); ++i) { const HG::Edge& e = g.edges_[d[i]]; const int k = e.tail_nodes_.size(); Y y; for (unsigned q = 0; q < e.rule_->e_.size(); ++q) { const WordID x = e.rule_->e_[q]; if (x > 0) y.push_back(x); else { const Y& c = st[st.size() - k - x]; y.insert(y.end(), c.begin(), c.end()); } } st.resize(st.size() - k); st.push_back(y); } return st.back(); }
static void envelope() {
  Hypergraph g;
#ifdef SHAPES
  shape_hg(g, SHAPES + vs_choice("shape", SN));
#else
  sym_hg(g, NN, MM, 2); vs_assume(!Ref(g).node(g.nodes_.size() - 1).empty());
#endif
  const int E = g.edges_.size(); const int sp = vs_choice("slopes", SP), pat = 1 + (sp != 1), empty = sp < 2;
  std::vector<double> m(E), b(E);
  static const int slopes[][6] = {{0, 1, 0, 1, 0, 0}, {1, 0, 0, -1, 0, 1}, {0, 0, 1, 1, 0, 0}, {-1, 0, 0, 0, 1, 0}, {2, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}};
  for (int k = 0; k < E; ++k) { HG::Edge& e = g.edges_[k]; m[k] = slopes[sp][k % 6]; b[k] = vs_fix("b", 0, BW, 0); e.feature_values_.set_value(fA, b[k]); e.feature_values_.set_value(fB, m[k]);
    TRulePtr r(new TRule(*e.rule_)); r->e_[0] = TD::Convert(word(k % (pat + 1))); if (r->arity_ == 2 && k % 2) { r->e_[1] = r->e_[0]; r->e_[0] = -1; r->e_[2] = 0; } else if (r->arity_ == 0 && empty && k % 2 == 0) r->e_.clear(); e.rule_ = r; }
  Ref ref(g); const std::vector<DV>& ds = ref.node(g.nodes_.size() - 1); std::vector<double> dm(ds.size()), db(ds.size()); double lo = 1e9, hi = -1e9;
  for (unsigned d = 0; d < ds.size(); ++d) { for (unsigned i = 0; i < ds[d].size(); ++i) { dm[d] += m[ds[d][i]]; db[d] += b[ds[d][i]]; } lo = std::min(lo, dm[d]); hi = std::max(hi, dm[d]); }
  if (hi - lo > 2) vs_stop(); // quotients stay exact
  SparseVector<double> ori, dir; ori.set_value(fA, 1); dir.set_value(fB, 1);
  const ConvexHull hull = Inside<ConvexHull, ConvexHullWeightFunction>(g, NULL, ConvexHullWeightFunction(ori, dir));
  const std::vector<boost::shared_ptr<MERTPoint> >& s = hull.GetSortedSegs(); const int n = s.size();
  vs_assert(n >= 1 && s[0]->x == -std::numeric_limits<double>::infinity(), "the envelope starts at minus infinity");
  for (int i = 0; i < n; ++i) { const MERTPoint& p = *s[i]; if (i) { vs_assert(s[i - 1]->x < p.x, "segments lie one after the other"); vs_assert(s[i - 1]->m < p.m, "slopes grow"); vs_assert(p.m * p.x + p.b == s[i - 1]->m * p.x + s[i - 1]->b, "neighbouring segments meet"); }
    Y t; p.ConstructTranslation(&t); std::vector<bool> used(E, false); p.CollectEdgesUsed(&used); bool found = false; std::vector<char> cand(ds.size());
    for (unsigned d = 0; d < ds.size(); ++d) { std::vector<bool> u(E, false); for (unsigned k = 0; k < ds[d].size(); ++k) u[ds[d][k]] = true; if (dm[d] == p.m && u == used && yield(g, ds[d]) == t && db[d] == p.b) found = true; }
    vs_assert(found, "every segment is a derivation of the forest with its translation, edges and scores"); }
  for (unsigned d = 0; d < ds.size(); ++d) { const int z = n - 1; bool ok = dm[d] >= s[0]->m && dm[d] <= s[z]->m; vs_assert(ok, "the extreme slopes are on the envelope"); if (dm[d] == s[0]->m) vs_assert(db[d] <= s[0]->b, "the left end is the best of its slope"); if (dm[d] == s[z]->m) vs_assert(db[d] <= s[z]->b, "the right end is the best of its slope");
    for (int i = 1; i < n; ++i) vs_assert(dm[d] * s[i]->x + db[d] <= s[i]->m * s[i]->x + s[i]->b, "no derivation lies above the envelope"); }
  if (n > 1) vs_reach("turns"); if (n > 2) vs_reach("three");
  // the error surface follows the best translation
  Eval ev; Sum metric; ErrorSurface es; ComputeErrorSurface(ev, hull, &es, &metric, g); std::vector<std::vector<float> > acc(n);
  std::vector<float> cur(2, 0.f); unsigned j = 0; vs_assert(es.size() >= 1 && es.size() <= s.size(), "one step per change");
  for (int i = 0; i < n; ++i) { while (j < es.size() && es[j].x <= s[i]->x) { for (int k = 0; k < 2; ++k) cur[k] += es[j].delta[k]; ++j; }
    Y t; s[i]->ConstructTranslation(&t); const std::vector<float>& v = ev.known[t]; vs_assert(v.size() == 2 && cur[0] == v[0] && cur[1] == v[1], "the sum of the steps up to a point is the score of the best translation there"); }
  vs_assert(j == es.size(), "steps only where the envelope turns"); if (es.size() > 1) vs_reach("steps"); }
static void search() {
  const int ns = 1 + vs_choice("sentences", 2); std::vector<ErrorSurface> su(ns); const LineOptimizer::ScoreType ty = vs_choice("minimise", 2) ? LineOptimizer::MINIMIZE_SCORE : LineOptimizer::MAXIMIZE_SCORE; std::vector<double> xs;
  for (int k = 0; k < ns; ++k) { const int n = 1 + vs_choice("segments", SEG); int x = -3; for (int i = 0; i < n; ++i) { ErrorSegment g; if (!i) g.x = -std::numeric_limits<double>::infinity(); else { x += 1 + vs_choice("gap", GAPS ? 2 : 3); g.x = x / 2.0; if (GAPS && k) { static const double tiny[] = {0, 1e-9, 0x1p-17}; g.x += tiny[vs_choice("tiny", 3)]; } xs.push_back(g.x); } g.delta.id_ = "SUM"; g.delta.fields.push_back(vs_fix("delta", -8, 8, 1)); g.delta.fields.push_back(1); su[k].push_back(g); } }
  Sum metric; float best = 0; const double pos = LineOptimizer::LineOptimize(&metric, su, ty, &best);
  std::sort(xs.begin(), xs.end()); double sc = 0; std::vector<double> probe; if (xs.empty()) probe.push_back(0); else { probe.push_back(xs[0] - 1); for (unsigned i = 0; i + 1 < xs.size(); ++i) if (xs[i + 1] - xs[i] > 1e-3) probe.push_back((xs[i] + xs[i + 1]) / 2); probe.push_back(xs.back() + 1); }
  vs_assert(pos == pos, "a point is returned"); if (!(pos == pos)) return;
  for (int k = 0; k < ns; ++k) for (unsigned i = 0; i < su[k].size(); ++i) if (su[k][i].x <= pos) sc += su[k][i].delta[0];
  vs_assert(sc == best, "the reported score is the score at the returned point");
  for (unsigned q = 0; q < probe.size(); ++q) { double v = 0; for (int k = 0; k < ns; ++k) for (unsigned i = 0; i < su[k].size(); ++i) if (su[k][i].x <= probe[q]) v += su[k][i].delta[0]; vs_assert(ty == LineOptimizer::MAXIMIZE_SCORE ? v <= sc : v >= sc, "no other point of the line scores better"); }
  if (xs.size() > 1) vs_reach("line"); if (xs.empty()) vs_reach("flat"); }
static void surface() { // written by the mappers, read by the reducers
  const int n = 1 + vs_choice("steps", 3), f = vs_choice("fields", 4), l = vs_choice("name", 3); static const int sizes[] = {0, 2, 11, 70}; static const double xv[] = {-0.1, 1e-300, 12345.678901234567}; ErrorSurface a, b;
  for (int i = 0; i < n; ++i) { ErrorSegment s; s.x = i ? xv[i] : -std::numeric_limits<double>::infinity(); s.delta.id_ = l == 0 ? "BLEU" : l == 1 ? "COMB:a=1;b=2" : std::string(200, 'm'); for (int k = 0; k < sizes[f]; ++k) s.delta.fields.push_back(k % 3 == 2 ? -k * 0.5f : 1000 + k + i); a.push_back(s); }
  std::string w; a.Serialize(&w); b.push_back(a[0]); b.Deserialize(w); vs_assert(b.size() == a.size(), "every step of a written surface is read");
  for (int i = 0; i < n && i < (int)b.size(); ++i) vs_assert(b[i].x == a[i].x && b[i].delta.id_ == a[i].delta.id_ && b[i].delta.fields == a[i].delta.fields, "a step reads back as written"); vs_reach("written"); }
extern "C" void vs_harness() {
#if WHAT == 0
  envelope();
#elif WHAT == 1
  search();
#else
  surface();
#endif
}
