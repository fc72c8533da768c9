// Samplers driven by an arbitrary generator.
#include "vsym.h"
#include <vector>
#include "sampler.h"
#include "alias_sampler.h"
using namespace std;
static int draws;
struct Gen { typedef unsigned result_type; static const bool has_fixed_range = false; unsigned min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return 0; } unsigned max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return 255; } void seed(unsigned) {} unsigned operator()() { ++draws; return last = (unsigned)vs_int("draw", 0, 255); } static unsigned last; };
unsigned Gen::last;
typedef RandomNumberGenerator<Gen> R;
static void select() {
  const int n = 2 + vs_choice("n", NN - 1); SampleSet<double> ss; double w[8], sum = 0;
  for (int i = 0; i < n; ++i) { w[i] = vs_fix("w", 0, 16, 0); ss.add(w[i]); sum += w[i]; }
  vs_assume(sum > 0);
  R r(1); const size_t k = r.SelectSample(ss); const double u = Gen::last / 256.0;
  vs_assert(k < (size_t)n, "the sample is one of the outcomes");
  double cum = 0; for (size_t i = 0; i < k; ++i) cum += w[i];
  vs_assert(u * sum <= cum + w[k] && (k == 0 || u * sum > cum), "an outcome is drawn exactly when the draw falls in its share");
  vs_assert(ss.size() == (size_t)n, "sampling leaves the weights alone"); vs_reach("select");
}
static void coin() { const double a = vs_choice("a", 17), b = 16 - a; R r(1); const size_t k = r.SelectSample(a, b); const double u = Gen::last / 256.0; vs_assert(k == (u > a / 16 ? 1u : 0u), "a choice of two follows their proportions"); vs_reach("coin"); }
static void alias() {
  const int N = 4; vector<double> p(N); double sum = 0; for (int i = 0; i < N; ++i) { p[i] = vs_fix("p", 0, 1 << GB, GB); sum += p[i]; } vs_assume(sum == 1);
  AliasSampler s(p); double mass[4] = {0};
  for (int i = 0; i < N; ++i) { const double c = s.cutoffs_[i]; vs_assert(c >= 0 && c <= 1, "every column splits between two outcomes"); mass[i] += c; if (c < 1) { vs_assert(s.aliases_[i] < (unsigned)N, "every split column has a second outcome"); mass[s.aliases_[i]] += 1 - c; } }
  for (int i = 0; i < N; ++i) vs_assert(mass[i] == N * p[i], "the columns add up to the given distribution");
  Gen g; struct U { Gen& g; double seen[2]; int k; double operator()() { return seen[k++] = g() / 256.0; } } u = {g, {0, 0}, 0};
  const unsigned d = s.Draw(u); const unsigned col = (unsigned)vs_concrete((int64_t)(u.seen[0] * N));
  vs_assert(d < (unsigned)N && p[d] > 0 || u.seen[1] == 0, "impossible outcomes are not drawn");
  vs_assert(d == (u.seen[1] > s.cutoffs_[col] ? s.aliases_[col] : col), "a draw takes its column's outcome or the alias"); vs_reach("alias");
}
static void annealed() {
  SampleSet<double> ss; double q[3], sum = 0; for (int i = 0; i < 3; ++i) { const double w = vs_choice("w", 4); ss.add(w); q[i] = w * w; sum += q[i]; } if (sum == 0) vs_stop();
  R r(1); const size_t k = r.SelectSample(ss, 0.5); const double u = Gen::last / 256.0; double cum = 0; for (size_t i = 0; i < k; ++i) cum += q[i];
  vs_assert(u * sum <= cum + q[k] + 1e-9 && (k == 0 || u * sum > cum - 1e-9), "annealing at temperature one half squares the weights"); vs_reach("annealed");
}
extern "C" void vs_harness() { switch (vs_choice("part", 4)) { case 0: select(); break; case 1: coin(); break; case 2: alias(); break; default: annealed(); } }
