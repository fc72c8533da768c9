// The word aligner: expectation-maximisation, most probable links, parameters written and loaded, sums over the diagonal.
#include "vsym.h"
#define main aligner
#include "word-aligner/fast_align.cc"
#undef main
#include "memfile.h"
#include <map>
#include <sstream>
static const char* kS[] = {"s0", "s1", "both"}; static const char* kT[] = {"t0", "t1", "both"};
extern "C" void vs_setup() { std::cerr.setstate(std::ios::failbit); TD::Convert("|||"); TD::Convert("t1"); TD::Convert("s0"); TD::Convert("both"); TD::Convert("t0"); TD::Convert("s1"); }
struct Pair { std::vector<int> s, t; };
typedef std::map<std::pair<std::string, std::string>, double> Table; // (source, target): null source is <eps>
struct Opt { bool rev, diag, opt, null, vb, viterbi; int iters; double p0, tension, alpha, beam; };
static double feat(int i, int j, int m, int n) { return -fabs(double(j) / n - double(i) / m); }
static double Z(int i, int m, int n, double a) { double z = 0; for (int j = 1; j <= n; ++j) z += exp(a * feat(i, j, m, n)); return z; }
static double prob(const Table& t, const std::string& e, const std::string& f) { Table::const_iterator i = t.find(std::make_pair(e, f)); return i == t.end() ? 1e-9 : i->second; }
static bool near(double a, double b, double tol) { return fabs(a - b) <= tol * std::max(1.0, fabs(b)); }
typedef std::pair<std::vector<std::string>, std::vector<std::string> > SP;
static SP sides(const Pair& p, bool rev) { SP r; for (int x : p.s) r.first.push_back(kS[x]); for (int x : p.t) r.second.push_back(kT[x]); if (rev) swap(r.first, r.second); return r; }
static std::vector<double> links(const Table& t, const Opt& o, const SP& p, int j) { // joint probability of every link of target word j; nothing is 0
  const int n = p.first.size(), m = p.second.size(); std::vector<double> r(n + 1, 0); const double z = o.diag ? Z(j + 1, m, n, o.tension) : 0;
  if (o.null) r[0] = prob(t, "<eps>", p.second[j]) * (o.diag ? o.p0 : 1.0 / (n + 1));
  for (int i = 1; i <= n; ++i) r[i] = prob(t, p.first[i - 1], p.second[j]) * (o.diag ? exp(o.tension * feat(j + 1, i, m, n)) / z * (1 - o.p0) : 1.0 / (n + o.null));
  return r; }
static void em(const std::vector<Pair>& c, Opt& o, Table& t, double& ratio) {
  ratio = 0; double toks = 0; for (const Pair& q : c) { const SP p = sides(q, o.rev); ratio += double(p.second.size()) / p.first.size() / c.size(); toks += p.second.size(); }
  for (int it = 0; it + 1 < o.iters; ++it) { Table k; double emp = 0;
    for (const Pair& q : c) { const SP p = sides(q, o.rev); for (unsigned j = 0; j < p.second.size(); ++j) { const std::vector<double> l = links(t, o, p, j); double sum = 0; for (double x : l) sum += x;
      for (unsigned i = 0; i < l.size(); ++i) if (i || o.null) { k[std::make_pair(i ? p.first[i - 1] : "<eps>", p.second[j])] += l[i] / sum; if (i) emp += feat(j + 1, i, p.second.size(), p.first.size()) * l[i] / sum; } } }
    if (o.diag && o.opt && it) for (int s = 0; s < 8; ++s) { double mod = 0; for (const Pair& q : c) { const SP p = sides(q, o.rev); const int m = p.second.size(), n = p.first.size(); for (int j = 1; j <= m; ++j) { const double z = Z(j, m, n, o.tension); for (int i = 1; i <= n; ++i) mod += feat(j, i, m, n) * exp(o.tension * feat(j, i, m, n)) / z; } }
      o.tension += (emp - mod) / toks * 20; o.tension = std::min(14.0, std::max(0.1, o.tension)); }
    std::map<std::string, double> tot; for (auto& x : k) tot[x.first.first] += x.second + (o.vb ? o.alpha : 0);
    for (auto& x : k) x.second = o.vb ? exp(Md::digamma(x.second + o.alpha) - Md::digamma(tot[x.first.first])) : x.second / tot[x.first.first];
    t.swap(k); } }
static std::string text(const Pair& p) { std::string s; for (int x : p.s) s += std::string(s.size() ? " " : "") + kS[x]; s += " |||"; for (int x : p.t) s += std::string(" ") + kT[x]; return s; }
static std::string run(std::vector<std::string> a) { std::vector<char*> v; a.insert(a.begin(), "fast_align"); for (auto& s : a) v.push_back(&s[0]); std::ostringstream os; std::streambuf* old = std::cout.rdbuf(os.rdbuf()); const int rc = aligner(v.size(), v.data()); std::cout.rdbuf(old); vs_assert(rc == 0, "aligning a well-formed corpus succeeds"); return os.str(); }
// the printed links of one sentence are the most probable ones
static void check_links(const std::string& line, const Table& t, const Opt& o, const Pair& q, bool zero_wins) {
  const SP p = sides(q, o.rev); std::vector<int> a(p.second.size(), 0); std::istringstream is(line); std::string w; int last = -1;
  while (is >> w) { int x = -1, y = -1; const bool ok = sscanf(w.c_str(), "%d-%d", &x, &y) == 2; vs_assert(ok, "links are pairs of numbers"); if (!ok) return; if (o.rev) std::swap(x, y); const bool in = x >= 0 && x < (int)p.first.size() && y > last && y < (int)p.second.size(); vs_assert(in, "every link joins two words and every target word has at most one, in order"); if (!in) return; a[y] = x + 1; last = y; }
  for (unsigned j = 0; j < a.size(); ++j) { const std::vector<double> l = links(t, o, p, j); double mx = 0; for (double x : l) mx = std::max(mx, x); vs_assert(l[a[j]] >= mx * (1 - 1e-7), "every target word is linked to its most probable source word"); if (!o.null) vs_assert(a[j] > 0, "every target word is linked when there is no null word"); else if (l[0] >= mx * (1 + 1e-7)) vs_assert(!a[j], "a word most probably linked to nothing is not linked"); } }
static void corpus() {
  static const int lens[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}};
  std::vector<Pair> c(2); for (int k = 0; k < 2; ++k) { const int* l = lens[vs_choice("lengths", k ? LENB : LENA)]; for (int i = 0; i < l[0]; ++i) c[k].s.push_back(k && i ? (c[k].s[0] + i) % 3 : vs_choice("source", i ? 3 : 2)); for (int i = 0; i < l[1]; ++i) c[k].t.push_back(k && i ? (c[k].t[0] + 2 * i) % 3 : vs_choice("target", i ? 3 : 2)); }
  static const Opt os[] = {{false, false, false, true, false, true, 3, 0.08, 4, 0.01, -4}, {false, true, false, true, false, true, 3, 0.25, 2, 0.01, -10000}, {true, true, true, true, false, false, 4, 0.08, 4, 0.01, -0.2}, {true, false, false, false, true, true, 2, 0.08, 4, 0.5, -0.5}, {false, true, true, false, true, true, 3, 0.4, 1, 0.25, -4}, {false, false, false, true, false, true, 1, 0.08, 4, 0.01, -4}};
  Opt o = os[vs_choice("options", 6)]; std::string in; for (const Pair& p : c) in += text(p) + "\n"; Pair extra; extra.s.push_back(c[0].s[0]); extra.s.push_back(2); extra.t.push_back(c[1].t[0]); if (vs_choice("unseen", 2)) extra.s.push_back(1);
  MemFile f(in), g(text(c[0]) + "\n" + text(extra) + "\n"), pf;
  auto num = [](double d) { std::ostringstream s; s << d; return s.str(); };
  std::vector<std::string> a = {"-i", f.name, "-x", g.name, "-p", pf.name, "-I", num(o.iters), "--prob_align_null", num(o.p0), "-T", num(o.tension), "-a", num(o.alpha), "--beam_threshold=" + num(o.beam)};
  if (o.rev) a.push_back("-r"); if (o.diag) a.push_back("-d"); if (o.opt) a.push_back("-o"); if (o.vb) a.push_back("-v"); if (!o.null) a.push_back("-N"); if (!o.viterbi) a.push_back("-V"); const bool hide = false;
  const std::string out = run(a); const double tension0 = o.tension; (void)tension0; Table t; double ratio; em(c, o, t, ratio);
  std::istringstream is(out); std::string line; for (const Pair& p : c) { vs_assert(!!getline(is, line), "one line is printed per sentence pair"); check_links(line, t, o, p, false); }
  std::vector<Pair> test; test.push_back(c[0]); test.push_back(extra); std::vector<std::string> al;
  auto scored = [&](std::istringstream& is, const Pair& p, const Opt& o, double tol) { if (!getline(is, line)) { vs_fail("one line is printed per scored sentence pair"); return; } const std::string head = text(p) + " |||"; const bool ok = line.compare(0, head.size(), head) == 0; vs_assert(ok, "scored sentence pairs are repeated"); if (!ok) return; const size_t e = line.rfind(" ||| "); 
    const SP q = sides(p, o.rev); double lp = Md::log_poisson(q.second.size(), 0.05 + q.first.size() * ratio); for (unsigned j = 0; j < q.second.size(); ++j) { double sum = 0; for (double x : links(t, o, q, j)) sum += x; lp += log(sum); }
    vs_assert(near(atof(line.c_str() + e + 5), lp, tol), "a sentence pair's score is its probability under the model"); check_links(line.substr(head.size(), e - head.size()), t, o, p, true); };
  for (const Pair& p : test) { Opt n = o; scored(is, p, n, 1e-4); } vs_assert(!getline(is, line), "nothing else is printed");
  // parameters: everything above the threshold and every most probable link
  std::map<std::pair<std::string, std::string>, double> got; std::istringstream ps(pf.get()); std::string e, w, v; while (ps >> e >> w >> v) { vs_assert(!got.count(std::make_pair(e, w)), "parameters are written once"); got[std::make_pair(e, w)] = atof(v.c_str()); }
  std::map<std::string, double> mx; for (auto& x : t) mx[x.first.first] = std::max(mx[x.first.first], x.second);
  for (auto& x : t) { const double th = mx[x.first.first] * pow(10.0, o.beam); const bool has = got.count(x.first); if (x.second > th * (1 + 1e-7)) vs_assert(has, "parameters above the threshold are written"); if (has) vs_assert(near(got[x.first], log(x.second), 2e-5), "parameters are written as the logarithms of the trained probabilities"); }
  for (auto& x : got) vs_assert(t.count(x.first), "only trained parameters are written");
  if (o.viterbi) for (const Pair& p : c) { const SP q = sides(p, o.rev); for (unsigned j = 0; j < q.second.size(); ++j) { const std::vector<double> l = links(t, o, q, j); int best = 0, ties = 0; for (unsigned i = 0; i < l.size(); ++i) if (l[i] > l[best]) best = i; for (unsigned i = 0; i < l.size(); ++i) ties += l[i] >= l[best] * (1 - 1e-7); const std::pair<std::string, std::string> k(best ? q.first[best - 1] : "<eps>", q.second[j]); if (ties == 1 && t.count(k)) vs_assert(got.count(k), "the parameters of the most probable links are written"); } }
  if (o.iters > 1 && o.beam == -10000) { // loading them gives the same scores
    std::vector<std::string> b = {"-i", g.name, "-f", pf.name, "--prob_align_null", num(o.p0), "-T", num(o.tension), "-m", num(ratio)}; if (o.rev) b.push_back("-r"); if (o.diag) b.push_back("-d"); if (!o.null) b.push_back("-N");
    std::istringstream fs(run(b)); for (const Pair& p : test) scored(fs, p, o, 1e-3); vs_reach("loaded"); }
  if (o.opt && o.iters > 2) vs_reach("tension"); if (o.vb) vs_reach("prior"); if (o.rev) vs_reach("reversed"); (void)hide; vs_reach("trained");
}
static void diagonal() { const double al[] = {0.1, 0.5, 1, 4, 14}; const double a = al[vs_choice("tension", 5)]; const int m = 1 + vs_choice("target length", DLEN), n = 1 + vs_choice("source length", DLEN), i = 1 + vs_choice("position", m); double z = 0, d = 0;
  for (int j = 1; j <= n; ++j) { const double x = exp(a * feat(i, j, m, n)); z += x; d += feat(i, j, m, n) * x; vs_assert(near(DiagonalAlignment::Feature(i, j, m, n), feat(i, j, m, n), 1e-12) && near(DiagonalAlignment::UnnormalizedProb(i, j, m, n, a), x, 1e-12), "a link is worth less the further it is from the diagonal"); }
  vs_assert(near(DiagonalAlignment::ComputeZ(i, m, n, a), z, 1e-8), "the closed form of the normaliser is the sum over source positions"); vs_assert(near(DiagonalAlignment::ComputeDLogZ(i, m, n, a), d / z, 1e-6), "the closed form of its derivative is the expected distance from the diagonal"); vs_reach("diagonal"); }
static void tables() { TTable t, u; std::map<std::pair<int, int>, double> w; for (int k = 0; k < (DLEN > 6 ? 3 : 2); ++k) { const int e = vs_choice("e", 3) * 2, f = vs_choice("f", 2); const double x = vs_fix("count", 1, 16, 4); TTable& z = vs_choice("which", 2) ? t : u; if (vs_choice("unit", 2)) { z.Increment(e, f); w[std::make_pair(e, f)] += 1; } else { z.Increment(e, f, x); w[std::make_pair(e, f)] += x; } }
  if (vs_choice("probabilities", 2)) { t.ttable.resize(9); t.ttable[8][1] = 0.5; t.Increment(6, 1); w[std::make_pair(6, 1)] += 1; }
  t += u; double n = 0; for (auto& x : w) { const bool has = x.first.first < (int)t.counts.size() && t.counts[x.first.first].count(x.first.second); vs_assert(has, "counts of two tables are joined"); if (has) vs_assert(t.counts[x.first.first][x.first.second] == x.second, "counts of two tables are added"); } for (auto& c : t.counts) n += c.size(); vs_assert(n == w.size(), "nothing else is counted"); vs_reach("tables"); }
extern "C" void vs_harness() { if (PART == 0) corpus(); else if (vs_choice("kind", 2)) diagonal(); else tables(); }
