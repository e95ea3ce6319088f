// The helper algorithms: interpolation, root finding, differentiation, trapezoid rule, running sums, powers j^x, casts.
#include "vh.h"
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>
#include <algorithm>
#include <numeric>
#include <utility/util_alternating_sum.h>
#include <utility/util_coefficient_expansion.h>
#include <utility/util_digit_scale.h>
#include <utility/util_find_root_bisect.h>
#include <utility/util_find_root_newton_raphson.h>
#include <utility/util_function_derivative.h>
#include <utility/util_interpolate.h>
#include <utility/util_lexical_cast.h>
#include <utility/util_numeric_cast.h>
#include <utility/util_point.h>
#include <utility/util_power_j_pow_x.h>
#include <utility/util_trapezoid.h>
using namespace vh;
typedef ef::complex<e_float> C;

static std::vector<e_float> rest(const Args& A, std::size_t from) { std::vector<e_float> v; for(std::size_t k = from; k < A.size(); ++k) { v.push_back(A[k].ef()); } return v; }
// polynomial by coefficients, lowest first
static e_float poly(const std::vector<e_float>& c, const e_float& x) { e_float s(0); for(std::size_t k = c.size(); k-- > 0;) { s = (s * x) + c[k]; } return s; }
// c[0] (x - c[1]) ... (x - c[n])
static e_float prod(const std::vector<e_float>& c, const e_float& x, std::size_t but = 0) { e_float s(c[0]); for(std::size_t k = 1; k < c.size(); ++k) { if(k != but) { s *= (x - c[k]); } } return s; }
static e_float dprod(const std::vector<e_float>& c, const e_float& x) { e_float s(0); for(std::size_t k = 1; k < c.size(); ++k) { s += prod(c, x, k); } return s; }

// x, then x1 y1 x2 y2 ...
OP("interp")
{
  const e_float x(A[0].ef()); std::vector<Util::point<e_float>> p;
  for(std::size_t k = 1; k + 1 < A.size(); k += 2) { p.push_back(Util::point<e_float>(A[k].ef(), A[k + 1].ef())); }
  O.in(x); for(const auto& q : p) { O.in(q.x); O.in(q.y); }
  const e_float r(Util::linear_interpolate<e_float>::interpolate(x, p)); O.res(r);
}
OP("interpd")
{
  const double x = A[0].d(); std::vector<Util::point<double>> p;
  for(std::size_t k = 1; k + 1 < A.size(); k += 2) { p.push_back(Util::point<double>(A[k].d(), A[k + 1].d())); }
  O.in(x); for(const auto& q : p) { O.in(q.x); O.in(q.y); }
  O.res(Util::linear_interpolate<double>::interpolate(x, p));
}
// abscissas double, ordinates e_float (exact products for small dyadic numbers)
OP("interpm")
{
  const double x = A[0].d(); std::vector<Util::point<double, e_float>> p;
  for(std::size_t k = 1; k + 1 < A.size(); k += 2) { p.push_back(Util::point<double, e_float>(A[k].d(), A[k + 1].ef())); }
  O.in(x); for(const auto& q : p) { O.in(q.x); O.in(q.y); }
  O.res(Util::linear_interpolate<double, e_float>::interpolate(x, p));
}
OP("ptless") { const Util::point<e_float> p(A[0].ef(), A[1].ef()), q(A[2].ef(), A[3].ef()); O.in(p.x); O.in(p.y); O.in(q.x); O.in(q.y); O.res(p < q); O.res(q < p); }

// sign first, offset, start, terms
OP("altsum")
{
  const bool neg = A[0].i() != 0; const bool dflt = A[1].i() != 0; const e_float init(A[2].ef()), start(A[3].ef()); const std::vector<e_float> t(rest(A, 4));
  O.in((int) neg); O.in((int) dflt); O.in(init); O.in(start); for(const e_float& x : t) { O.in(x); }
  if(dflt) { O.res(neg ? std::accumulate(t.begin(), t.end(), start, Util::alternating_sum<e_float>(true)) : std::accumulate(t.begin(), t.end(), start, Util::alternating_sum<e_float>())); }
  else { O.res(std::accumulate(t.begin(), t.end(), start, Util::alternating_sum<e_float>(neg, init))); }
}
// x, first factor, start, coefficients
OP("coefexp")
{
  const bool dflt = A[0].i() != 0; const e_float x(A[1].ef()), init(A[2].ef()), start(A[3].ef()); const std::vector<e_float> t(rest(A, 4));
  O.in((int) dflt); O.in(x); O.in(init); O.in(start); for(const e_float& y : t) { O.in(y); }
  if(dflt) { O.res(std::accumulate(t.begin(), t.end(), start, Util::coefficient_expansion<e_float>(x))); }
  else { O.res(std::accumulate(t.begin(), t.end(), start, Util::coefficient_expansion<e_float>(x, init))); }
}
OP("ccoefexp")
{
  const C x(A[0].ef(), A[1].ef()); const std::vector<e_float> t(rest(A, 2));
  O.in(x.real()); O.in(x.imag()); for(const e_float& y : t) { O.in(y); }
  const C r(std::accumulate(t.begin(), t.end(), C(0), Util::coefficient_expansion<C, e_float>(x, e_float(1)))); O.res(r.real()); O.res(r.imag());
}

// x, then j's in a row with the same table
OP("jpow")
{
  const e_float x(A[0].ef()); O.in(x); std::map<std::uint32_t, e_float> m;
  for(std::size_t k = 1; k < A.size(); ++k) { O.in((unsigned long long) A[k].u()); O.res(Util::j_pow_x((std::uint32_t) A[k].u(), x, m)); }
}
OP("cjpow")
{
  const C x(A[0].ef(), A[1].ef()); O.in(x.real()); O.in(x.imag()); std::map<std::uint32_t, C> m;
  for(std::size_t k = 2; k < A.size(); ++k) { O.in((unsigned long long) A[k].u()); const C r(Util::j_pow_x((std::uint32_t) A[k].u(), x, m)); O.res(r.real()); O.res(r.imag()); }
}
OP("dscale") { O.res(Util::DigitScale()); O.res(&Util::DigitScale() == &Util::DigitScale()); }

template<typename T> static void cast_int(const Args& A, Out& O) { O.in(A[1].s()); const T t = Util::numeric_cast<T>(A[1].s()); O.res((long long) t); O.res(Util::lexical_cast((long long) t)); }
OP("ncast")
{
  const std::string t(A[0].s()); O.in(t);
  if     (t == "i8")  { cast_int<signed char>(A, O); }   else if(t == "u8")  { cast_int<unsigned char>(A, O); }
  else if(t == "i16") { cast_int<std::int16_t>(A, O); }  else if(t == "u16") { cast_int<std::uint16_t>(A, O); }
  else if(t == "i32") { cast_int<std::int32_t>(A, O); }  else if(t == "u32") { cast_int<std::uint32_t>(A, O); }
  else if(t == "i64") { cast_int<std::int64_t>(A, O); }
  else if(t == "f")   { O.in(A[1].s()); O.res(Util::numeric_cast<float>(A[1].s())); }
  else if(t == "d")   { O.in(A[1].s()); O.res(Util::numeric_cast<double>(A[1].s())); }
  else if(t == "l")   { O.in(A[1].s()); O.res(Util::numeric_cast<long double>(A[1].s())); }
  else if(t == "e")   { O.in(A[1].s()); O.res(Util::numeric_cast<e_float>(A[1].s())); const e_float x(A[1].s()); std::ostringstream os; os << x; O.res(Util::lexical_cast(x) == os.str()); }
}

// ---- function objects; every point at which the function is asked for is recorded as an operand
struct Seen { mutable std::vector<e_float> at; };
struct Bisect : public Util::FindRootBisect<e_float>, public Seen
{
  std::vector<e_float> c;
  Bisect(const e_float& lo, const e_float& hi, const e_float& tol, const std::vector<e_float>& cc) : Util::FindRootBisect<e_float>(lo, hi, tol), c(cc) { }
  virtual e_float my_function(const e_float& x) const { at.push_back(x); return prod(c, x); }
};
struct Newton : public Util::FindRootNewtonRaphson<e_float>, public Seen
{
  std::vector<e_float> c;
  Newton(const e_float& lo, const e_float& hi, const e_float& tol, const std::vector<e_float>& cc) : Util::FindRootNewtonRaphson<e_float>(lo, hi, tol), c(cc) { }
  virtual e_float my_function(const e_float& x) const { return prod(c, x); }
  virtual void my_function_derivative(const e_float& x, e_float& f, e_float& d) const { at.push_back(x); f = prod(c, x); d = dprod(c, x); }
};
struct Deriv : public Util::FunctionDerivative<e_float>
{
  std::vector<e_float> c;
  Deriv(const e_float& x, const std::vector<e_float>& cc) : Util::FunctionDerivative<e_float>(x), c(cc) { }
  Deriv(const e_float& x, const e_float& h, const std::vector<e_float>& cc) : Util::FunctionDerivative<e_float>(x, h), c(cc) { }
  virtual e_float my_function(const e_float& x) const { return poly(c, x); }
};
struct Trap : public Util::RecursiveTrapezoidRule<e_float>, public Seen
{
  std::vector<e_float> c;
  Trap(const e_float& lo, const e_float& hi, const e_float& tol, const std::vector<e_float>& cc) : Util::RecursiveTrapezoidRule<e_float>(lo, hi, tol), c(cc) { }
  Trap(const e_float& lo, const e_float& hi, const std::vector<e_float>& cc) : Util::RecursiveTrapezoidRule<e_float>(lo, hi, my_tol()), c(cc) { }
  virtual e_float my_function(const e_float& x) const { at.push_back(x); return poly(c, x); }
};
// 1 / (a + cos x) over one period
struct TrapPer : public Util::RecursiveTrapezoidRule<e_float>
{
  e_float a;
  TrapPer(const e_float& aa) : Util::RecursiveTrapezoidRule<e_float>(e_float(0), ef::two_pi(), my_tol()), a(aa) { }
  virtual e_float my_function(const e_float& x) const { return 1 / (a + ef::cos(x)); }
};
// lo, hi, tol, coefficients; results: before, value, after, value again, number of points, smallest and largest point
template<typename F> static void roots(const F& f, Out& O, const e_float& lo, const e_float& hi, const e_float& tol, const std::vector<e_float>& c)
{
  O.in(lo); O.in(hi); O.in(tol); for(const e_float& x : c) { O.in(x); }
  O.res(f.success()); const e_float r(f.operation()); O.res(r); O.res(f.success());
  O.res((long long) f.at.size());
  O.res(*std::min_element(f.at.begin(), f.at.end())); O.res(*std::max_element(f.at.begin(), f.at.end()));
  const e_float r2(f.operation()); O.res(r2); O.res(f.success()); O.res(f.function(lo));
}
OP("bisect") { const e_float lo(A[0].ef()), hi(A[1].ef()), tol(A[2].ef()); const std::vector<e_float> c(rest(A, 3)); const Bisect f(lo, hi, tol, c); roots(f, O, lo, hi, tol, c); }
OP("newton") { const e_float lo(A[0].ef()), hi(A[1].ef()), tol(A[2].ef()); const std::vector<e_float> c(rest(A, 3)); const Newton f(lo, hi, tol, c); roots(f, O, lo, hi, tol, c); }
OP("deriv")
{
  const bool dflt = A[0].i() != 0; const e_float x(A[1].ef()), h(A[2].ef()); const std::vector<e_float> c(rest(A, 3));
  O.in((int) dflt); O.in(x); O.in(h); for(const e_float& y : c) { O.in(y); }
  if(dflt) { const Deriv d(x, c); O.res(d.operation()); O.res(d.success()); } else { const Deriv d(x, h, c); O.res(d.operation()); O.res(d.success()); }
}
OP("trap")
{
  const bool dflt = A[0].i() != 0; const e_float lo(A[1].ef()), hi(A[2].ef()), tol(A[3].ef()); const std::vector<e_float> c(rest(A, 4));
  O.in((int) dflt); O.in(lo); O.in(hi); O.in(tol); for(const e_float& x : c) { O.in(x); }
  const Trap f0(lo, hi, c), f1(lo, hi, tol, c); const Trap& f = dflt ? f0 : f1;
  O.res(f.success()); O.res(f.operation()); O.res(f.success()); O.res((long long) f.at.size());
  O.res(*std::min_element(f.at.begin(), f.at.end())); O.res(*std::max_element(f.at.begin(), f.at.end()));
}
OP("trapper") { const e_float a(A[0].ef()); O.in(a); const TrapPer f(a); O.res(f.operation()); O.res(f.success()); }
