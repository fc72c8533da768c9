// What the trainers minimise: expected loss and entropy of candidate sets, the pairwise ranking loss; and the candidate sets themselves.
#include "hgh.h"
#include "memfile.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <algorithm>
#include <unordered_set>
#include <boost/functional/hash.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/scoped_ptr.hpp>
#include <boost/program_options.hpp>
#include <boost/program_options/variables_map.hpp>
#include "ns.h"
#include "ns_docscorer.h"
#define private public
#include "training/utils/candidate_set.h"
#undef private
#include "training/utils/risk.h"
#include "training/utils/entropy.h"
#include "liblbfgs/lbfgs++.h"
#include "filelib.h"
#include "stringlib.h"
#include "weights.h"
#include "hg_io.h"
#include "kbest.h"
#include "viterbi.h"
#include "optimize.h"
#include "prob.h"
#define main main_of_the_tool
namespace minrisk {
#include "training/minrisk/minrisk_optimize.cc"
}
namespace pro {
#include "training/pro/mr_pro_reduce.cc"
}
#undef main
using training::CandidateSet; using training::Candidate;
static int F[10]; static const char* names[] = {"A", "B=C", "LongFeatureName_1", "d", "e", "f", "g", "h", "i", "j"};
extern "C" void vs_setup() { hg_setup(); for (int i = 0; i < 10; ++i) F[i] = FD::Convert(names[i]); std::cerr.setstate(std::ios::failbit); }
static bool wrong;
struct Own : public EvaluationMetric { Own() : EvaluationMetric("OWN") {} ~Own() {} float ComputeScore(const SufficientStats& s) const { return s[0]; } bool IsErrorMetric() const { return wrong; } };
struct Eval : public SegmentEvaluator { void Evaluate(const std::vector<WordID>& h, SufficientStats* o) const { o->id_ = "OWN"; o->fields.assign(1, h.size() * 0.25f); if (h.size()) o->fields.push_back(h[0]); } };
static bool near(double a, double b) { return fabs(a - b) < 1e-7 * (1 + fabs(b)); }
static const double W[] = {0, 0.5, -1, 2};
static void expected() {
  const int ns = 1 + vs_choice("sentences", 2); std::vector<CandidateSet> cs(ns); std::vector<double> x(F[1] + 1); x[F[0]] = W[vs_choice("w", 3)]; x[F[1]] = W[vs_choice("v", 2) * 2]; wrong = vs_choice("error", 2); Own m; minrisk::metric = &m; double risk = 0, ent = 0, gr[2] = {0, 0}, ge[2] = {0, 0};
  for (int k = 0; k < ns; ++k) { const int n = 1 + vs_choice("candidates", k ? 2 : CAND); std::vector<double> p, c; double z = 0, ef[2] = {0, 0}, h = 0, r = 0; for (int i = 0; i < n; ++i) { cs[k].cs.push_back(Candidate()); Candidate& d = cs[k].cs.back(); const int f = vs_choice("f", k ? 2 : 4); const double a = f % 2 ? 1.5 : -i, b = f / 2 ? 2 : 0; if (a) d.fmap.set_value(F[0], a); if (b) d.fmap.set_value(F[1], b); d.eval_feats.id_ = "OWN"; const double s = (i * 3 + k + f) % 5 * 0.25; d.eval_feats.fields.push_back(s); c.push_back(wrong ? s : 1 - s); p.push_back(exp(a * x[F[0]] + b * x[F[1]])); z += p.back(); }
    for (int i = 0; i < n; ++i) { p[i] /= z; r += p[i] * c[i]; h -= p[i] * log(p[i]); for (int q = 0; q < 2; ++q) ef[q] += p[i] * cs[k].cs[i].fmap.value(F[q]); } risk += r; ent += h;
    double dr[2] = {0, 0}, dh[2] = {0, 0}; for (int i = 0; i < n; ++i) for (int q = 0; q < 2; ++q) { const double dp = p[i] * (cs[k].cs[i].fmap.value(F[q]) - ef[q]); dr[q] += dp * c[i]; dh[q] -= dp * (log(p[i]) + 1); } for (int q = 0; q < 2; ++q) { gr[q] += dr[q]; ge[q] += dh[q]; }
    training::CandidateSetRisk R(cs[k], m); training::CandidateSetEntropy H(cs[k]); SparseVector<double> g, e; const double rv = R(x, &g), hv = H(x, &e); vs_assert(near(rv, r), "the risk is the loss expected under the model"); vs_assert(near(hv, h), "the entropy of the candidates"); vs_assert(near(R(x), r) && near(H(x), h), "values do not depend on asking for gradients"); for (int q = 0; q < 2; ++q) vs_assert(near(g.value(F[q]), dr[q]), "the gradient of the risk is its derivative"); if (n > 2) vs_reach("risk"); }
  const double T = vs_choice("T", 2) ? 0.75 : 0; minrisk::RiskObjective obj(cs, T); std::vector<double> g(x.size(), 77); const double v = obj(x, &g[0]); vs_assert(near(v, risk - T * ent), "the objective is risk less scaled entropy over all sentences"); for (int q = 0; q < 2; ++q) vs_assert(near(g[F[q]], gr[q] - T * ge[q]), "the gradient is that of the objective"); for (unsigned i = 0; i < g.size(); ++i) if ((int)i != F[0] && (int)i != F[1]) vs_assert(g[i] == 0, "no other feature has a gradient"); if (T) vs_reach("objective"); }
static void ranking() {
  const int n = 1 + vs_choice("pairs", PAIRS), t = vs_choice("held out", 2); std::string text; std::vector<std::vector<double> > f(n + t, std::vector<double>(2)); std::vector<int> y(n + t); std::vector<std::pair<bool, SparseVector<double> > > tr, te, all;
  for (int i = 0; i < n + t; ++i) { y[i] = vs_choice("label", 2); const int k = i < n ? vs_choice("f", 4) : vs_choice("f", 2) * 3; std::ostringstream o; o << y[i] << '\t'; f[i][0] = k % 2 ? -1.25 : 1e-3; f[i][1] = k / 2 ? 3 : 0; o << names[0] << '=' << f[i][0]; if (f[i][1]) o << ' ' << names[1] << '=' << f[i][1]; text += o.str() + "\n"; if (n == 1 && i == 0 && vs_choice("blank", 2)) text += "\n"; }
  std::istringstream in(text); pro::ReadCorpus(&in, &all); vs_assert((int)all.size() == n + t, "every pair is read"); if ((int)all.size() != n + t) return; for (int i = 0; i < n + t; ++i) { vs_assert(all[i].first == (y[i] == 1) && all[i].second.value(F[0]) == f[i][0] && all[i].second.value(F[1]) == f[i][1] && all[i].second.size() == (f[i][1] ? 2 : 1), "a pair has the label and features written"); (i < n ? tr : te).push_back(all[i]); }
  std::vector<double> x(F[1] + 1), prev; x[0] = W[vs_choice("bias", 2) * 3]; x[F[0]] = W[vs_choice("w", 2) + 1]; x[F[1]] = vs_choice("v", 2) ? -20 : 0.5; if (vs_choice("previous", 2)) { prev = x; prev[F[0]] = 1; prev[0] = -1; if (vs_choice("shorter", 2)) prev.resize(F[1]); } const double C = vs_choice("C", 2) ? 0.5 : 0, T = prev.size() ? 0.25 : 0;
  double want = 0; std::vector<double> g(x.size(), 77), wg(x.size()); double test = 0; for (int i = 0; i < n + t; ++i) { const double d = f[i][0] * x[F[0]] + f[i][1] * x[F[1]] + x[0], s = y[i] ? -d : d, l = s > 30 ? s + log1p(exp(-s)) : log1p(exp(s)), p = 1 / (1 + exp(-s)) * (y[i] ? -1 : 1); if (i < n) { want += l; wg[0] += p; wg[F[0]] += p * f[i][0]; wg[F[1]] += p * f[i][1]; } else test += l; }
  for (unsigned i = 0; i < x.size(); ++i) { const double q = x[i] - (i < prev.size() ? prev[i] : 0); want += C * x[i] * x[i] + T * q * q; wg[i] += 2 * C * x[i] + 2 * T * q; }
  pro::ProLoss loss(tr, te, C, T, prev); const double v = loss(x, &g[0]); vs_assert(near(v, want), "the ranking loss is the regularised log loss of the pairs"); for (unsigned i = 0; i < x.size(); ++i) vs_assert(near(g[i], wg[i]), "the gradient is that of the loss"); if (t) { vs_assert(near(loss.tppl, exp(test / t)), "held-out perplexity"); vs_reach("held out"); } vs_reach("ranking"); }
typedef std::pair<std::vector<WordID>, std::map<int, long long> > Key; // values to nine digits
static Key key(const std::vector<WordID>& w, const SparseVector<double>& v) { Key k; k.first = w; for (SparseVector<double>::const_iterator i = v.begin(); i != v.end(); ++i) if (i->second) k.second[i->first] = llround(i->second * 1e9); return k; }
static void sets() {
  Hypergraph g; shape_hg(g, vs_choice("shape", SH)); const int E = g.edges_.size(), pat = 1 + vs_choice("words", 2), wide = vs_choice("wide", 2); for (int k = 0; k < E; ++k) { HG::Edge& e = g.edges_[k]; TRulePtr r(new TRule(*e.rule_)); r->e_[0] = TD::Convert(word(k % pat)); e.rule_ = r; e.edge_prob_ = prob_t(1. / (2 + k)); const int f = vs_choice("features", k < 3 ? 3 : 2); if (f != 1) e.feature_values_.set_value(F[0], 0.5); if (f != 0) e.feature_values_.set_value(F[1], -2); if (f == 2) e.feature_values_.set_value(F[2], 1e-6); if (wide) for (int q = 0; q < 9; ++q) e.feature_values_.set_value(F[(q * (k % 2 ? 1 : 7) + k) % 10], 1); }
  Ref ref(g); const std::vector<DV>& ds = ref.node(g.nodes_.size() - 1); std::map<Key, int> want; for (unsigned i = 0; i < ds.size(); ++i) { SparseVector<double> v; std::vector<std::vector<WordID> > st; for (unsigned k = 0; k < ds[i].size(); ++k) { const HG::Edge& e = g.edges_[ds[i][k]]; v += e.feature_values_; const int a = e.tail_nodes_.size(); std::vector<WordID> y; for (unsigned q = 0; q < e.rule_->e_.size(); ++q) { const WordID x = e.rule_->e_[q]; if (x > 0) y.push_back(x); else y.insert(y.end(), st[st.size() - a - x].begin(), st[st.size() - a - x].end()); } st.resize(st.size() - a); st.push_back(y); } want[key(st.back(), v)]++; }
  Eval ev; CandidateSet a, b; a.AddKBestCandidates(g, 1000, &ev); std::map<Key, int> got; for (unsigned i = 0; i < a.size(); ++i) { const Key k = key(a[i].ewords, a[i].fmap); vs_assert(want.count(k), "candidates are translations of the forest with their features"); ++got[k]; SufficientStats s; ev.Evaluate(a[i].ewords, &s); vs_assert(a[i].eval_feats == s, "a candidate keeps its statistics"); }
  vs_assert(got.size() == want.size(), "every translation of the list with its features is kept"); vs_assert(a.size() == got.size(), "no candidate is kept twice"); if (want.size() < ds.size()) vs_reach("merged");
  MemFile f; a.WriteToFile(f.name); b.ReadFromFile(f.name); bool same = b.size() == a.size(); for (unsigned i = 0; same && i < a.size(); ++i) same = b[i].ewords == a[i].ewords && b[i].eval_feats == a[i].eval_feats && key(b[i].ewords, b[i].fmap) == key(a[i].ewords, a[i].fmap); vs_assert(same, "candidates read back as written");
  b.AddKBestCandidates(g, 1000, &ev); vs_assert(b.size() == a.size(), "adding the same list again adds nothing"); vs_reach("read");
  CandidateSet u; u.AddUniqueKBestCandidates(g, 1000, &ev); std::set<std::vector<WordID> > ys, us; for (std::map<Key, int>::iterator i = want.begin(); i != want.end(); ++i) ys.insert(i->first.first); for (unsigned i = 0; i < u.size(); ++i) { us.insert(u[i].ewords); vs_assert(want.count(key(u[i].ewords, u[i].fmap)), "candidates are translations of the forest with their features"); } vs_assert(us == ys && u.size() == ys.size(), "a list of different translations has each once"); }
extern "C" void vs_harness() {
#if WHAT == 0
  expected();
#elif WHAT == 1
  ranking();
#else
  sets();
#endif
}
