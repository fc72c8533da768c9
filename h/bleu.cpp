// BLEU in its variants: statistics, scores, sums, text form; both scoring libraries.
#include "vsym.h"
#include "ns.h"
#include "scorer.h"
#include "tdict.h"
#include <map>
#include <set>
#include <cmath>
#include <string>
#include <iostream>
typedef std::vector<WordID> V;
extern "C" void vs_setup() { std::cerr.setstate(std::ios::failbit); const char* w[] = {"a", "b", "ab", "ba", "\xC3\xA9", " ", "a\xC3\xA9"}; for (int i = 0; i < 7; ++i) TD::Convert(w[i]); EvaluationMetric::Instance("IBM_BLEU"); EvaluationMetric::Instance("NIST_BLEU"); EvaluationMetric::Instance("KOEHN_BLEU"); EvaluationMetric::Instance("QCRI_BLEU"); }
static V sent(int n) { V v; for (int i = 0; i < n; ++i) v.push_back(vs_int("word", 1, WMAX)); return v; }
static bool eq(const V& a, int i, const V& b, int j, int n) { for (int k = 0; k < n; ++k) if (a[i + k] != b[j + k]) return false; return true; }
static int occ(const V& g, int at, int n, const V& s) { int c = 0; for (int j = 0; j + n <= (int)s.size(); ++j) c += eq(g, at, s, j, n); return c; }
static int clipped(const V& h, const std::vector<V>& refs, int n) { int tot = 0; // over distinct n-grams: min(count in hypothesis, largest count in a reference)
  for (int i = 0; i + n <= (int)h.size(); ++i) { bool first = true; for (int j = 0; j < i; ++j) if (eq(h, j, h, i, n)) first = false; if (!first) continue;
    int m = 0; for (unsigned r = 0; r < refs.size(); ++r) m = std::max(m, occ(h, i, n, refs[r])); tot += std::min(m, occ(h, i, n, h)); }
  return tot; }
static float value(const SufficientStats& s, int N, bool qcri) { // geometric mean of the smoothed precisions times the brevity penalty
  const float alpha = qcri ? 1 : 0.01; double lb = 0, la = 0; int c = 0;
  for (int n = 0; n < N; ++n) if (s[N + n] > 0) { const double k = s[n] ? s[n] : alpha; lb += log(k / s[N + n]); la += log(alpha / (s[N + n] + alpha)); ++c; }
  const double h = s[2 * N], r = s[2 * N + 1]; const double bp = h < r ? (qcri ? (h - r - alpha) / h : 1 - r / h) : 0;
  return qcri ? exp(lb / c + bp) - exp(bp + la / c) : exp(lb / c + bp); }
static bool near(float a, float b) { return fabs(a - b) <= 1e-5 * std::max(1.0f, std::fabs(b)); }
static void check(const SufficientStats& s, const V& h, const std::vector<V>& refs, int N, int type, const char* id) {
  vs_assert(s.size() == (unsigned)(2 * N + 2) && s.id_ == id, "the statistics name their metric"); if (s.size() != (unsigned)(2 * N + 2)) return;
  for (int n = 1; n <= N; ++n) { vs_assert(s[n - 1] == clipped(h, refs, n), "matched n-grams are counted up to their largest count in a reference"); vs_assert(s[N + n - 1] == std::max(0, (int)h.size() - n + 1), "all n-grams of the hypothesis are counted"); }
  vs_assert(s[2 * N] == h.size(), "the hypothesis length is counted");
  std::set<float> ok; float sum = 0, mn = 1e9, cl = 1e9; for (unsigned r = 0; r < refs.size(); ++r) { sum += refs[r].size(); mn = std::min(mn, (float)refs[r].size()); cl = std::min(cl, std::fabs((float)refs[r].size() - (float)h.size())); }
  if (type == 1) ok.insert(mn); else if (type == 2) ok.insert(sum / refs.size()); else for (unsigned r = 0; r < refs.size(); ++r) if (std::fabs((float)refs[r].size() - (float)h.size()) == cl) ok.insert(refs[r].size());
  vs_assert(ok.count(s[2 * N + 1]), "the effective reference length is the closest, shortest or average one"); }
static const char* kId[] = {"IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU"};
static void stats() { // symbolic words: every pattern of repetitions and every order of word ids
  const int nr = 1 + vs_choice("refs", 2); std::vector<V> refs; int left = TOT; const V h = sent(vs_choice("hyp", HL + 1)); left -= h.size();
  for (int r = 0; r < nr; ++r) { const int n = vs_choice("ref", std::min(left, 3) + 1); left -= n; refs.push_back(sent(n)); }
  const int type = vs_choice("type", 4); EvaluationMetric* m = EvaluationMetric::Instance(kId[type]);
  boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs); SufficientStats s; ev->Evaluate(h, &s); check(s, h, refs, 4, type, kId[type]);
  vs_reach("stats");
}
static V word(const char* p) { V v; for (; *p; ++p) v.push_back(*p - 'a' + 1); return v; }
static const char* kS[] = {"", "a", "ab", "aab", "abab", "bca", "aaaaa", "abcabc", "abcd", "bbcda"};
static void score() {
  const int type = vs_choice("type", 4); std::vector<V> refs; refs.push_back(word(kS[1 + vs_choice("r", 9)])); const int two = vs_choice("two", 4); if (two) refs.push_back(word(kS[two == 3 ? 3 : 1 + 4 * two]));
  const int hi = vs_choice("h", 10); const V h = word(kS[hi]), g = word(kS[(hi * 5 + 1) % 10]);
  EvaluationMetric* m = EvaluationMetric::Instance(kId[type]); boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs);
  SufficientStats a, b, c; ev->Evaluate(h, &a); ev->Evaluate(g, &b); check(b, g, refs, 4, type, kId[type]); ev->Evaluate(h, &c);
  vs_assert(a == c, "evaluating does not depend on what was evaluated before"); check(a, h, refs, 4, type, kId[type]);
  SufficientStats s = a; s += b; for (unsigned i = 0; i < 10; ++i) vs_assert(s[i] == a[i] + b[i], "the statistics of a corpus are the sums over its sentences");
  s -= b; vs_assert(s == a, "subtracting statistics undoes adding them"); SufficientStats z; z += a; vs_assert(z == a && z.id_ == a.id_, "adding to nothing copies"); 
  std::string e; a.Encode(&e); SufficientStats d(e); vs_assert(d == a && d.id_ == a.id_, "statistics survive being written and read"); vs_assert(!a.IsAdditiveIdentity() , "statistics of a sentence are not nothing"); vs_assert(SufficientStats("x", std::vector<float>(10)).IsAdditiveIdentity(), "zeros are nothing");
  if (h.size()) { const float f = m->ComputeScore(a); vs_assert(near(f, value(a, 4, type == 3)), "the score is the geometric mean of the smoothed precisions times the brevity penalty"); if (type != 3) vs_assert(f >= 0 && f <= 1.0001, "the score is between nothing and one");
    const SufficientStats t = a + b; vs_assert(near(m->ComputeScore(t), value(t, 4, type == 3)), "a corpus is scored on its summed statistics");
    if (type < 3 && refs.size() == 1 && h == refs[0]) vs_assert(near(f, 1), "a translation equal to its reference scores one"); }
  // the older library counts the same
  if (type < 3) { const ScoreType st = type == 0 ? IBM_BLEU : type == 1 ? NIST_BLEU : Koehn_BLEU; ScorerP sc = SentenceScorer::CreateSentenceScorer(st, refs, ""); ScoreP p = sc->ScoreCandidate(h), q = sc->ScoreCandidate(g), r = sc->ScoreCandidate(h);
    std::string x, y, w; p->Encode(&x); r->Encode(&y); vs_assert(x == y, "the document scorer does not depend on what was scored before"); w = "4 "; { std::ostringstream o; o << 4 << ' ' << a[9] << ' ' << a[8]; for (int i = 0; i < 4; ++i) o << ' ' << a[i] << ' ' << a[4 + i]; w = o.str(); } vs_assert(x == w, "both scoring libraries count the same");
    ScoreP t = SentenceScorer::CreateScoreFromString(st, x); std::string u; t->Encode(&u); vs_assert(u == x, "a document score survives being written and read"); if (h.size() >= 4) vs_assert(near(p->ComputeScore(), value(a, 4, false)), "both scoring libraries score the same");
    ScoreP sum = p->GetZero(); vs_assert(sum->IsAdditiveIdentity(), "the zero score is nothing"); sum->PlusEquals(*p); sum->PlusEquals(*q); ScoreP df = p->GetZero(); sum->Subtract(*q, &*df); df->Encode(&u); vs_assert(u == x, "subtracting a document score undoes adding it");
    sum->Encode(&u); { const SufficientStats s2 = a + b; std::ostringstream o; o << 4 << ' ' << s2[9] << ' ' << s2[8]; for (int i = 0; i < 4; ++i) o << ' ' << s2[i] << ' ' << s2[4 + i]; vs_assert(u == o.str(), "document scores add up"); } }
  vs_reach("score");
}
static void chars() { // by characters: words split into UTF-8 characters with blanks between them
  const char* w[] = {"a", "ab", "\xC3\xA9", "a\xC3\xA9"}; V h, r, ch, cr; const int n = vs_choice("n", 3), k = 1 + vs_choice("k", 2);
  const WordID A = TD::Convert("a"), B = TD::Convert("b"), E = TD::Convert("\xC3\xA9"), S = TD::Convert(" ");
  for (int s = 0; s < 2; ++s) for (int i = 0; i < (s ? k : n); ++i) { const int x = vs_choice("w", 4); V& c = s ? cr : ch; (s ? r : h).push_back(TD::Convert(w[x])); if (i) c.push_back(S); if (x != 2) c.push_back(A); if (x == 1) c.push_back(B); if (x >= 2) c.push_back(E); }
  vs_assert(Characterize(h) == ch && Characterize(r) == cr, "words are split into characters with blanks between words");
  boost::shared_ptr<SegmentEvaluator> ev = EvaluationMetric::Instance("CBLEU")->CreateSegmentEvaluator(std::vector<V>(1, r)); SufficientStats s; ev->Evaluate(h, &s);
  check(s, ch, std::vector<V>(1, cr), 5, 0, "IBM_BLEU"); vs_reach("chars");
}
extern "C" void vs_harness() { if (WORDS) stats(); else if (vs_choice("kind", 2)) score(); else chars(); }
