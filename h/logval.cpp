// Log-domain numbers against the reals they stand for.
#include "vsym.h"
#include <cmath>
#include <sstream>
#include "prob.h"
#include "semiring.h"
using namespace std;
typedef prob_t L;
static bool near(double x, double y, double scale) { return fabs(x - y) <= 1e-9 * scale; }
static void grid() { // products and order: exact in the log domain
  const double x = vs_fix("x", -16, 16, 1), y = vs_fix("y", -16, 16, 1), z = vs_fix("z", -16, 16, 1); const bool sx = vs_choice("sx", 2), sy = vs_choice("sy", 2), sz = vs_choice("sz", 2);
  const L a(x, sx), b(y, sy), c(z, sz), one(1), zero(0);
  vs_assert((a * b).v_ == x + y && (a * b).s_ == (sx != sy), "a product adds logs and combines signs");
  vs_assert((a / b).v_ == x - y && (a / b).s_ == (sx != sy), "a quotient subtracts logs and combines signs");
  vs_assert(a * b == b * a && (a * b) * c == a * (b * c), "multiplication commutes and associates");
  vs_assert(a * one == a && one * a == a && a / a == one && a * a.inverse() == one, "one is neutral and inverses cancel");
  vs_assert((a * zero).is_0() && (zero * a).is_0() && !a.is_0(), "zero absorbs");
  vs_assert(a + zero == a && zero + a == a && a - zero == a, "adding zero changes nothing");
  vs_assert(-(-a) == a && !((-a) == a) && abs(a) == abs(-a) && !abs(a).s_ && abs(a).v_ == x, "negation flips the sign only");
  vs_assert(sx || (a.pow(2) == a * a && a.pow(1) == a && a.pow(2).root(2) == a), "powers multiply logs");
  vs_assert(sx || log(a) == x, "the log of a positive number is its stored log");
  const bool lt = sx != sy ? sx : sx ? x > y : x < y, eq = x == y && sx == sy;
  vs_assert((a < b) == lt && (a > b) == (!lt && !eq) && (a <= b) == (lt || eq) && (a >= b) == !lt, "comparison orders the numbers as reals");
  vs_assert((a == b) == eq && (a != b) == !eq && a.lt(b) == lt && a.gt(b) == (!lt && !eq), "equality is equality of the numbers");
  vs_assert((zero < a) == !sx && (a < zero) == sx && (a < one) == (sx || x < 0), "zero lies between the negative and the positive numbers");
  if (eq) vs_assert(a.hash_impl() == b.hash_impl(), "equal numbers hash alike");
  vs_reach("grid");
}
static void sums() {
  static const double vals[] = {0, 1, -1, 0.5, -0.25, 3, 1e-30, 1e30, -1e30, 1e-300, 1e300, 1e-6, 1.5e-8};
  const double x = vals[vs_choice("x", 13)], y = vals[vs_choice("y", 13)]; const L a(x), b(y); const double m = fabs(x) + fabs(y);
  vs_assert(near(a.as_float(), x, fabs(x)), "a number converts there and back");
  vs_assert(near((a + b).as_float(), x + y, m) && near((b + a).as_float(), x + y, m), "a sum is the sum of the numbers");
  vs_assert(near((a - b).as_float(), x - y, m), "a difference is the difference of the numbers");
  L s(a); s += b; s -= b; vs_assert(near(s.as_float(), x, m), "subtracting what was added gives the number back");
  if (fabs(x) < 1e100 && fabs(y) < 1e100) { vs_assert(near((a * b).as_float(), x * y, fabs(x * y)), "a product is the product of the numbers"); if (y && fabs(x / y) < 1e300) vs_assert(near((a / b).as_float(), x / y, fabs(x / y)), "a quotient is the quotient of the numbers"); }
  vs_assert((a < b) == (x < y) && (a > b) == (x > y), "the order is that of the numbers");
  L t; for (int i = 0; i < 8; ++i) t += a; vs_assert(near(t.as_float(), 8 * x, 8 * fabs(x)), "repeated addition multiplies");
  L e = a; e = y; vs_assert(e == b && L(y) == b, "assignment replaces the number");
  vs_assert(L::One().is_1() && L::Zero().is_0() && L() == L(0) && L::exp(0).is_1() && near(L::e().as_float(), M_E, 3), "the constants are what they are called");
  vs_reach("sums");
}
extern "C" void vs_harness() { if (vs_choice("part", 2)) sums(); else grid(); }
