// Tables of the language model: probing hash tables, searches in sorted ranges, joint sorting, intersections.
#include "vsym.h"
#include <vector>
#include <map>
#include <set>
#include <string.h>
#include <stdlib.h>
#include "util/probing_hash_table.hh"
#include "util/sorted_uniform.hh"
#include "util/joint_sort.hh"
#include "util/multi_intersection.hh"
using namespace util;
struct E { typedef uint32_t Key; uint32_t k; int v; uint32_t GetKey() const { return k; } void SetKey(uint32_t x) { k = x; } };
static E mk(uint32_t k, int v) { E e; e.k = k; e.v = v; return e; }
typedef AutoProbing<E, IdentityHash> Auto; typedef ProbingHashTable<E, IdentityHash> Fixed;
typedef std::vector<std::pair<uint32_t, int> > Ref;
static int* look(Ref& r, uint32_t k) { for (unsigned i = 0; i < r.size(); ++i) if (r[i].first == k) return &r[i].second; return 0; }
static void growing() {
  Auto t(1 + vs_choice("initial", INITS)); Ref r; const int n = OPS - vs_choice("shorter", 2); bool cleared = false;
  for (int i = 0; i < n; ++i) { const uint32_t k = vs_int("key", 1, KMAX); const int v = 10 * i + 1; int* at = look(r, k); Auto::MutableIterator it;
    switch (vs_choice("op", at || i == 0 ? 2 : 3)) {
      case 0: { const bool f = t.FindOrInsert(mk(k, v), it); vs_assert(f == (at != 0), "insertion reports whether the key was there"); vs_assert(it->k == k && it->v == (at ? *at : v), "the entry returned is the one stored"); if (!at) r.push_back(std::make_pair(k, v)); break; }
      case 1: { const bool f = t.UnsafeMutableFind(k, it); vs_assert(f == (at != 0), "a key is found exactly when it was inserted"); if (f && at) { vs_assert(it->v == *at, "with its value"); it->v = *at = v; } break; }
      case 2: { it = t.Insert(mk(k, v)); vs_assert(it->k == k && it->v == v, "a new entry is stored"); r.push_back(std::make_pair(k, v)); vs_reach("insert"); break; } }
    if (i == n / 2 && !cleared && r.size() == 1 && vs_choice("clear", 2)) { t.Clear(); r.clear(); cleared = true; } }
  vs_assert(t.Size() == r.size(), "the size is the number of entries"); bool all = true; for (unsigned i = 0; i < r.size(); ++i) { Auto::ConstIterator c; all &= t.Find(r[i].first, c) && c->v == r[i].second; } vs_assert(all, "every entry is found again with its value"); if (n > 2) { vs_reach("growing"); return; }
  const uint32_t q = vs_int("query", 1, KMAX); int* at = look(r, q); Auto::ConstIterator c; const bool f = t.Find(q, c); vs_assert(f == (at != 0) && (!f || (c->k == q && c->v == *at)), "no other entry is found");
}
static void fixed() { // a table of given capacity, doubled once
  const int cap = CAP + vs_choice("capacity", 1 + INITS), with = vs_choice("insert", 2); std::vector<E> mem(2 * cap); for (int i = 0; i < 2 * cap; ++i) mem[i] = mk(0, 0); Fixed t(&mem[0], cap * sizeof(E)); Ref r; bool doubled = false; int room = cap;
  for (int i = 0; i < cap + 1; ++i) { const uint32_t k = vs_int("key", 1, KMAX); int* at = look(r, k); bool thrown = false; const bool full = (int)r.size() + 1 >= room; Fixed::MutableIterator it; bool f = false; const int ins = at ? 0 : with;
    try { if (ins) it = t.Insert(mk(k, i)); else f = t.FindOrInsert(mk(k, i), it); } catch (const ProbingSizeException& e) { thrown = true; }
    vs_assert(thrown == (!at && full), "the table refuses an entry exactly when it is full"); if (thrown) { vs_reach("full"); break; }
    vs_assert(it->k == k && f == (at != 0) && it->v == (at ? *at : i), "the entry returned is the one stored"); if (!at) r.push_back(std::make_pair(k, i));
    if (!doubled && i == cap - 2 && vs_choice("double", 2)) { doubled = true; t.Double(&mem[0]); room *= 2; vs_reach("doubled"); } }
  vs_assert(t.SizeNoSerialization() >= r.size(), "size"); bool ok = true; for (unsigned i = 0; i < r.size(); ++i) { Fixed::ConstIterator c; ok &= t.Find(r[i].first, c) && c->v == r[i].second; } vs_assert(ok, "every entry of the table is found with its value");
  vs_reach("fixed"); if (cap > 2) return; const uint32_t q = vs_int("query", 1, KMAX); Fixed::ConstIterator c; vs_assert(t.Find(q, c) == (look(r, q) != 0), "no other key is found");
}
typedef std::vector<uint64_t> V;
static V sorted(int n, uint64_t top, bool strict) { V v(n); for (int i = 0; i < n; ++i) { v[i] = vs_uint("element", 0, top); if (i) vs_assume(strict ? v[i] > v[i - 1] : v[i] >= v[i - 1]); } return v; }
static void search() {
  const int n = vs_choice("n", NN + 1), how = vs_choice("how", 3); IdentityAccessor<uint64_t> acc; const uint64_t top = how == 0 ? ~0ULL : how == 1 ? P32 : P64; V v = sorted(n, top, false); const uint64_t key = vs_uint("key", 0, top);
  if (how) { for (int i = 0; i < n; ++i) v[i] = vs_concrete(v[i]); }
  const uint64_t* out = 0; const uint64_t *b = n ? &v[0] : 0, *e = b + n; bool f;
  if (how == 0) f = BinaryFind(acc, b, e, key, out); else if (how == 1) f = SortedUniformFind<const uint64_t*, IdentityAccessor<uint64_t>, Pivot32>(acc, b, e, key, out); else f = SortedUniformFind<const uint64_t*, IdentityAccessor<uint64_t>, Pivot64>(acc, b, e, key, out);
  bool in = false; for (int i = 0; i < n; ++i) in |= v[i] == key; vs_assert(f == in, "a key is found exactly when it is in the range"); if (f) vs_assert(out >= b && out < e && *out == key, "where it is"); if (f) vs_reach("search"); if (how == 2) vs_reach("uniform64");
}
static void joint() { // keys sorted, values carried along
  const int n = 1 + vs_choice("n", NN); std::vector<int> k(n), k0; std::vector<uint64_t> v(n), v0; for (int i = 0; i < n; ++i) { k[i] = vs_int("key", 0, 1000); v[i] = vs_uint("value", 0, 1000); } k0 = k; v0 = v;
  JointSort(k.begin(), k.end(), v.begin()); bool up = true; for (int i = 1; i < n; ++i) up &= k[i - 1] <= k[i]; vs_assert(up, "keys in order");
  bool same = true; for (int i = 0; i < n; ++i) { int a = 0, b = 0; for (int j = 0; j < n; ++j) { a += k[j] == k0[i] && v[j] == v0[i]; b += k0[j] == k0[i] && v0[j] == v0[i]; } same &= a == b; } vs_assert(same, "every key keeps its value"); vs_reach("joint");
}
struct Out { V v; void operator()(uint64_t x) { v.push_back(x); } };
static void cross() { // sets that are sorted, intersected
  const int m = 1 + vs_choice("sets", 3); std::vector<V> s(m); std::vector<boost::iterator_range<const uint64_t*> > r; for (int i = 0; i < m; ++i) { s[i] = sorted(i == 0 ? 1 + vs_choice("size", NN) : vs_choice("size", 3), 100, true); }
  for (int i = 0; i < m; ++i) { const uint64_t* p = s[i].empty() ? 0 : &s[i][0]; r.push_back(boost::iterator_range<const uint64_t*>(p, p + s[i].size())); }
  V want; for (unsigned i = 0; i < s[0].size(); ++i) { bool all = true; for (int j = 1; j < m; ++j) { bool x = false; for (unsigned k = 0; k < s[j].size(); ++k) x |= s[j][k] == s[0][i]; all &= x; } if (all) want.push_back(s[0][i]); }
  if (vs_choice("first", 2)) { boost::optional<uint64_t> f = FirstIntersection(r); vs_assert(!!f == !want.empty(), "an intersection is found exactly when there is one"); if (f && !want.empty()) vs_assert(*f == want[0], "the lowest one"); vs_reach("first"); }
  else { Out o; AllIntersection(r, o); bool eq = o.v.size() == want.size(); vs_assert(eq, "as many elements as the intersection has"); for (unsigned i = 0; eq && i < want.size(); ++i) eq &= o.v[i] == want[i]; vs_assert(eq, "all elements of the intersection, in order"); if (!want.empty()) vs_reach("all"); }
}
extern "C" void vs_harness() { switch (WHAT) { case 0: growing(); break; case 1: fixed(); break; case 2: search(); break; case 3: joint(); break; default: cross(); } }
