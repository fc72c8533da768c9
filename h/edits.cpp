// Edit rates: WER, CER, TER against brute force; sums, text form, mixtures; alignment error rate; string kernel.
#include "vsym.h"
#include "ns.h"
#include "ns_ter_impl.h"
#include "levenshtein.h"
#include "scorer.h"
#include "tdict.h"
#include "alignment_io.h"
#include <set>
#include <cmath>
#include <string>
#include <sstream>
#include <iostream>
typedef std::vector<WordID> V;
extern "C" void vs_setup() { std::cerr.setstate(std::ios::failbit); const char* w[] = {"a", "b", "cc", "0-0", "0-1", "1-0", "1-1", "2-1"}; for (int i = 0; i < 8; ++i) TD::Convert(w[i]); const char* m[] = {"WER", "CER", "TER", "SSK", "IBM_BLEU"}; for (int i = 0; i < 5; ++i) EvaluationMetric::Instance(m[i]); }
template <class S> static int lev(const S& a, unsigned i, const S& b, unsigned j) { if (i == a.size()) return b.size() - j; if (j == b.size()) return a.size() - i; if (a[i] == b[j]) return lev(a, i + 1, b, j + 1); return 1 + std::min(lev(a, i + 1, b, j + 1), std::min(lev(a, i + 1, b, j), lev(a, i, b, j + 1))); }
static V sent(int n) { V v; for (int i = 0; i < n; ++i) v.push_back(vs_int("word", 1, 1 << 20)); return v; }
static void distance() { // symbolic words
  const V a = sent(vs_choice("m", LL + 1)), b = sent(vs_choice("n", LL + 1));
  // smallest number of edits over all alignments, as a table of the solver's own comparisons
  const int got = cdec::LevenshteinDistance(a, b); vs_assert(got == lev(a, 0, b, 0), "the edit distance is the fewest insertions, deletions and substitutions");
  vs_assert((int)cdec::LevenshteinDistance(b, a) == got, "the edit distance is symmetric");
  std::vector<V> refs(1, b); if (b.size() && vs_choice("two", 2)) refs.push_back(sent(1)); SufficientStats s; EvaluationMetric::Instance("WER")->CreateSegmentEvaluator(refs)->Evaluate(a, &s);
  const int o = refs.size() > 1 ? std::min(got, lev(a, 0, refs[1], 0)) : got; vs_assert(s[0] == o, "the word error counts the edits to the closest reference"); bool len = false; for (unsigned r = 0; r < refs.size(); ++r) len |= lev(a, 0, refs[r], 0) == o && s[1] == refs[r].size(); vs_assert(len, "the word error is relative to the length of the closest reference");
  vs_reach("distance");
}
static V mk(int n, int k) { V v; for (int i = 0; i < n; ++i) v.push_back(1 + vs_choice("w", k)); return v; }
static void shifted(const V& h, int k, std::set<V>* out) { out->insert(h); if (!k) return; const int n = h.size(); for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { V rest, blk(h.begin() + i, h.begin() + j + 1); rest.insert(rest.end(), h.begin(), h.begin() + i); rest.insert(rest.end(), h.begin() + j + 1, h.end()); for (unsigned p = 0; p <= rest.size(); ++p) { V x(rest.begin(), rest.begin() + p); x.insert(x.end(), blk.begin(), blk.end()); x.insert(x.end(), rest.begin() + p, rest.end()); shifted(x, k - 1, out); } } }
static void ter() {
  const V r = mk(1 + vs_choice("rl", RL), 3); V h = mk(vs_choice("hl", RL + 1), 3);
  NewScorer::TERScorerImpl t(r); int su, in, de, sh; const float sc = t.Calculate(h, &su, &in, &de, &sh);
  vs_assert(su >= 0 && in >= 0 && de >= 0 && sh >= 0 && sc == su + in + de + sh, "the edits are those counted"); vs_assert((int)h.size() - in + de == (int)r.size(), "insertions and deletions account for the difference in length");
  const int l = lev(h, 0, r, 0); vs_assert(sc <= l, "moving words never costs more than plain edits"); vs_assert((sc == 0) == (h == r), "only the reference itself needs no edit");
  if (sh <= 2) { std::set<V> x; shifted(h, sh, &x); int best = 1000; bool ok = false; for (std::set<V>::iterator i = x.begin(); i != x.end(); ++i) { const int d = lev(*i, 0, r, 0); best = std::min(best, d); ok |= d == su + in + de; } vs_assert(ok, "the edits turn the hypothesis into the reference after the moves"); vs_assert(best <= su + in + de, "the edits are enough"); if (sh) vs_reach("moves"); }
  if (sh == 0 && l) { std::set<V> x; shifted(h, 1, &x); }
  // an adjacent block swap is found
  std::vector<V> refs(1, r); const int two = vs_choice("two", r.size() > 1 ? 3 : 2); if (two) refs.push_back(V(1, 3)); if (two == 2) { refs[1] = r; std::rotate(refs[1].begin(), refs[1].begin() + 1, refs[1].end()); vs_reach("alternatives"); } SufficientStats s, s2; EvaluationMetric* m = EvaluationMetric::Instance("TER"); boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs); ev->Evaluate(h, &s);
  float b = sc; int q[4] = {in, de, su, sh}; if (two) { NewScorer::TERScorerImpl u(refs[1]); int a1, a2, a3, a4; const float c = u.Calculate(h, &a1, &a2, &a3, &a4); if (c < b) { b = c; q[0] = a2; q[1] = a3; q[2] = a1; q[3] = a4; } }
  vs_assert(s[0] + s[1] + s[2] + s[3] == b && s[0] == q[0] && s[1] == q[1] && s[2] == q[2] && s[3] == q[3], "with several references the closest one counts"); vs_assert(s[4] == (two == 1 ? (r.size() + 1) / 2 : r.size()), "edits are relative to the average length of the references");
  ev->Evaluate(r, &s2); ev->Evaluate(h, &s2); vs_assert(s2 == s, "evaluating does not depend on what was evaluated before"); if (s[4]) vs_assert(m->ComputeScore(s) == b / s[4], "the translation error rate is edits per reference word"); vs_assert(m->IsErrorMetric(), "lower is better");
  // the older library
  ScorerP os = SentenceScorer::CreateSentenceScorer(TER, refs, ""); ScoreP p = os->ScoreCandidate(h); std::string e, f; p->Encode(&e); { std::ostringstream o; o << s[0] << ' ' << s[1] << ' ' << s[2] << ' ' << s[3] << ' ' << s[4]; vs_assert(e == o.str(), "both scoring libraries count the same edits"); }
  SentenceScorer::CreateScoreFromString(TER, e)->Encode(&f); vs_assert(e == f, "an error count survives being written and read");
  ScoreP z = p->GetZero(); z->PlusEquals(*p, 1); z->Encode(&f); vs_assert(f == e, "a scaled sum of error counts"); z->PlusEquals(*p, -1); vs_assert(z->IsAdditiveIdentity(), "adding and taking away leaves nothing");
  vs_reach("ter");
}
static std::string join(const V& v) { const char* n[] = {"", "a", "b", "cc"}; std::string s; for (unsigned i = 0; i < v.size(); ++i) s += (i ? " " : "") + std::string(n[v[i]]); return s; }
static void cer() {
  const V h = mk(vs_choice("hl", 3), 3), r = mk(1 + vs_choice("rl", 2), 3); std::vector<V> refs; std::vector<std::string> rs; const char* n[] = {"", "a", "b", "cc"}; V H, R; for (unsigned i = 0; i < h.size(); ++i) H.push_back(TD::Convert(n[h[i]])); for (unsigned i = 0; i < r.size(); ++i) R.push_back(TD::Convert(n[r[i]]));
  refs.push_back(R); rs.push_back(join(r)); const int more = vs_choice("more", 3); if (more) { V x(more == 1 ? 1 : 3, TD::Convert("b")); refs.push_back(x); rs.push_back(more == 1 ? "b" : "b b b"); }
  SufficientStats s; EvaluationMetric* m = EvaluationMetric::Instance("CER"); m->CreateSegmentEvaluator(refs)->Evaluate(H, &s); int b = 1000; for (unsigned i = 0; i < rs.size(); ++i) b = std::min(b, lev(join(h), 0, rs[i], 0));
  vs_assert(s[0] == b, "the character error counts the edits to the closest reference"); bool ok = false; for (unsigned i = 0; i < rs.size(); ++i) ok |= lev(join(h), 0, rs[i], 0) == b && s[1] == rs[i].size(); vs_assert(ok, "the character error is relative to the length of the closest reference"); vs_assert(m->ComputeScore(s) == (float)b / s[1], "the character error rate is edits per reference character"); vs_reach("cer");
}
static void mix() { // mixtures of metrics
  const char* specs[] = {"COMB:IBM_BLEU=0.5;TER=-0.5", "COMB:WER=1;SSK=0.25;IBM_BLEU=-2", "comb:ter=1;cer=2"}; const int k = vs_choice("spec", 3); EvaluationMetric* m = EvaluationMetric::Instance(specs[k]);
  static const char* parts[3][3] = {{"IBM_BLEU", "TER", 0}, {"WER", "SSK", "IBM_BLEU"}, {"TER", "CER", 0}}; static const float co[3][3] = {{0.5, -0.5, 0}, {1, 0.25, -2}, {1, 2, 0}};
  V r, h, g; const char* n[] = {"a", "b", "cc"}; for (int i = 0, e = 1 + vs_choice("rl", 3); i < e; ++i) r.push_back(TD::Convert(n[(i * i) % 3])); for (int i = 0, e = 1 + vs_choice("hl", 4); i < e; ++i) { h.push_back(TD::Convert(n[vs_choice("w", 3)])); } g = h; g.push_back(TD::Convert("a"));
  std::vector<V> refs(1, r); boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs); SufficientStats s, t; ev->Evaluate(h, &s); ev->Evaluate(g, &t); unsigned at = 0; float want = 0, want2 = 0; const SufficientStats st = s + t;
  for (int i = 0; i < 3 && parts[k][i]; ++i) { EvaluationMetric* p = EvaluationMetric::Instance(parts[k][i]); SufficientStats x, y; p->CreateSegmentEvaluator(refs)->Evaluate(h, &x); p->CreateSegmentEvaluator(refs)->Evaluate(g, &y); bool ok = x.size() == p->SufficientStatisticsVectorSize(); for (unsigned j = 0; j < x.size(); ++j) ok &= s[at + j] == x[j]; at += x.size(); vs_assert(ok, "a mixture keeps the statistics of its parts side by side"); want += co[k][i] * p->ComputeScore(x); want2 += co[k][i] * p->ComputeScore(x + y); }
  vs_assert(s.size() == at, "a mixture has no other statistics"); vs_assert(fabs(m->ComputeScore(s) - want) < 1e-4, "a mixture scores the weighted sum of its parts"); vs_assert(fabs(m->ComputeScore(st) - want2) < 1e-4, "a mixture scores a corpus by its parts' corpus scores"); vs_reach("mix");
}
static void aer() { // alignments as sets of links
  const char* l[] = {"0-0", "0-1", "1-0", "1-1", "2-1"}; int a = 0, b = 0; std::string sa, sb; std::vector<V> refs(1); V hyp; for (int i = 0; i < 5; ++i) { if (vs_choice("r", 2)) { a |= 1 << i; refs[0].push_back(TD::Convert(l[i])); } if (vs_choice("h", 2)) { b |= 1 << i; hyp.push_back(TD::Convert(l[i])); } }
  if (!a) return; ScorerP sc = SentenceScorer::CreateSentenceScorer(AER, refs, ""); ScoreP p = sc->ScoreCandidate(hyp); const int m = __builtin_popcount(a & b), np = __builtin_popcount(b), nr = __builtin_popcount(a);
  const float P = (float)m / np, R = (float)m / nr, f = m ? 1 - 2 * P * R / (P + R) : 1; vs_assert(fabs(p->ComputeScore() - f) < 1e-6, "the alignment error rate is one minus the balanced F of the links"); std::string e, g; p->Encode(&e); ScoreP q = SentenceScorer::CreateScoreFromString(AER, e); q->Encode(&g); vs_assert(e == g && q->ComputeScore() == p->ComputeScore(), "alignment counts survive being written and read");
  ScoreP z = p->GetZero(); z->PlusEquals(*p); z->PlusEquals(*p); z->Encode(&g); const int* c = (const int*)g.data(); vs_assert(c[0] == 2 * m && c[1] == 2 * np && c[2] == 2 * nr, "links are counted over the corpus"); vs_reach("aer");
}
static double ssn(const V& s, const V& t, int n) { // sum over common subsequences of length n of lambda^(total span)
  double tot = 0; const int a = s.size(), b = t.size(); for (int x = 0; x < 1 << a; ++x) if (__builtin_popcount(x) == n) for (int y = 0; y < 1 << b; ++y) if (__builtin_popcount(y) == n) { V p, q; int f1 = -1, l1 = 0, f2 = -1, l2 = 0; for (int i = 0; i < a; ++i) if (x >> i & 1) { p.push_back(s[i]); if (f1 < 0) f1 = i; l1 = i; } for (int i = 0; i < b; ++i) if (y >> i & 1) { q.push_back(t[i]); if (f2 < 0) f2 = i; l2 = i; } if (p == q) tot += pow(0.8, l1 - f1 + 1 + l2 - f2 + 1); } return tot; }
static void kernel() { const V h = mk(KL, 2), r = mk(KL + vs_choice("r", 2), 2); SufficientStats s; EvaluationMetric* m = EvaluationMetric::Instance("SSK"); m->CreateSegmentEvaluator(std::vector<V>(1, r))->Evaluate(h, &s); double hr = 0, hh = 0, rr = 0; for (int n = 1; n <= 4; ++n) { hr += ssn(h, r, n); hh += ssn(h, h, n); rr += ssn(r, r, n); } const double den = sqrt(hh * rr); vs_assert(s[1] == 1 && fabs(s[0] - (den ? hr / den : 0)) < 1e-4, "the kernel score is the normalised weight of the common subsequences"); vs_reach("kernel"); }
extern "C" void vs_harness() { switch (K0 + vs_choice("kind", KN)) { case 0: distance(); break; case 1: ter(); break; case 2: cer(); break; case 3: mix(); break; case 4: aer(); break; default: kernel(); } }
