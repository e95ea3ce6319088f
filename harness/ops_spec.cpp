// Factorials, primes, Bernoulli numbers, gamma, zeta, hypergeometric series.
#include "vh.h"
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>
#include <functions/gamma/gamma_util.h>
#include <functions/integer/prime_factors.h>
#include <deque>
using namespace vh;
typedef ef::complex<e_float> C;

OP("fact") { const unsigned n = (unsigned) A[0].u(); O.in(n); O.res(ef::factorial(n)); }
OP("fact2") { const int n = (int) A[0].i(); O.in(n); O.res(ef::factorial2(n)); }
OP("binrow") { const unsigned n = (unsigned) A[0].u(); O.in(n); for(unsigned k = 0; k <= n; ++k) { O.res(ef::binomial(n, k)); } }
OP("binnk") { const unsigned n = (unsigned) A[0].u(), k = (unsigned) A[1].u(); O.in(n); O.in(k); O.res(ef::binomial(n, k)); }
OP("binxk") { const e_float x(A[0].ef()); const unsigned k = (unsigned) A[1].u(); O.in(x); O.in(k); O.res(ef::binomial(x, k)); }
OP("binny") { const unsigned n = (unsigned) A[0].u(); const e_float y(A[1].ef()); O.in(n); O.in(y); O.res(ef::binomial(n, y)); }
OP("binxy") { const e_float x(A[0].ef()), y(A[1].ef()); O.in(x); O.in(y); O.res(ef::binomial(x, y)); }
OP("poch") { const e_float x(A[0].ef()); const unsigned n = (unsigned) A[1].u(); O.in(x); O.in(n); O.res(ef::pochhammer(x, n)); }
OP("pochr") { const e_float x(A[0].ef()), a(A[1].ef()); O.in(x); O.in(a); O.res(ef::pochhammer(x, a)); }
OP("cpoch") { const e_float x(A[0].ef()), y(A[1].ef()); const unsigned n = (unsigned) A[2].u(); O.in(x); O.in(y); O.in(n); const C r(ef::pochhammer(C(x, y), n)); O.res(r.real()); O.res(r.imag()); }

static std::string text(const std::deque<std::uint32_t>& d)
{ std::string s; for(std::uint32_t p : d) { if(!s.empty()) { s += ' '; } s += std::to_string(p); } return s; }
// several calls in a row, the destination reused
OP("primes") { std::deque<std::uint32_t> d(3, 7); for(const Arg& a : A) { const unsigned n = (unsigned) a.u(); O.in(n); ef::prime(n, d); O.res((long long) d.size()); O.res(text(d)); } }
OP("pfac") { std::deque<Util::point<std::uint32_t>> d(2, Util::point<std::uint32_t>(7, 7)); for(const Arg& a : A) { const unsigned n = (unsigned) a.u(); O.in(n); ef::prime_factors(n, d); std::string s; for(const auto& p : d) { if(!s.empty()) { s += ' '; } s += std::to_string(p.x) + '^' + std::to_string(p.y); } O.res(s); } }
OP("bern") { const unsigned n = (unsigned) A[0].u(); O.in(n); O.res(ef::bernoulli(n)); }
OP("bernt") { const unsigned n = (unsigned) A[0].u(); O.in(n); std::vector<e_float> b((std::size_t) A[1].u(), e_float(5)); ef::bernoulli_table(b, n); O.in((long long) b.size()); for(const e_float& x : b) { O.res(x); } }
OP("zint") { const int n = (int) A[0].i(); O.in(n); O.res(ef::riemann_zeta(n)); }
OP("gam") { const e_float x(A[0].ef()); O.in(x); O.res(ef::gamma(x)); }
OP("gamnear") { const int n = (int) A[0].i(); const e_float x(A[1].ef()); O.in(n); O.in(x); O.res(ef::gamma_near_n(n, x)); }
OP("gampm") { const e_float x(A[0].ef()); O.in(x); e_float p(3), m(4); GammaUtil::GammaOfPlusXMinusX(x, p, m); O.res(p); O.res(m); }
OP("zeta") { const e_float x(A[0].ef()); O.in(x); O.res(ef::riemann_zeta(x)); }
OP("cgam") { const e_float x(A[0].ef()), y(A[1].ef()); O.in(x); O.in(y); const C r(ef::gamma(C(x, y))); O.res(r.real()); O.res(r.imag()); }
OP("czeta") { const e_float x(A[0].ef()), y(A[1].ef()); O.in(x); O.in(y); const C r(ef::riemann_zeta(C(x, y))); O.res(r.real()); O.res(r.imag()); }

static std::deque<e_float> take(const Args& A, int from, int n) { std::deque<e_float> d; for(int k = 0; k < n; ++k) { d.push_back(A[from + k].ef()); } return d; }
// p, q, p + q parameters, argument: the function with that number of parameters (if there is one) and the general one
OP("hyp")
{
  const int p = (int) A[0].i(), q = (int) A[1].i();
  const std::deque<e_float> a(take(A, 2, p)), b(take(A, 2 + p, q)); const e_float x(A[2 + p + q].ef());
  O.in(p); O.in(q); for(const e_float& t : a) { O.in(t); } for(const e_float& t : b) { O.in(t); } O.in(x);
  const e_float g(ef::hypergeometric_pfq(a, b, x));
  if(p == 0 && q == 0) { O.res(ef::hypergeometric_0f0(x)); }
  else if(p == 0 && q == 1) { O.res(ef::hypergeometric_0f1(b[0], x)); }
  else if(p == 1 && q == 0) { O.res(ef::hypergeometric_1f0(a[0], x)); }
  else if(p == 1 && q == 1) { O.res(ef::hypergeometric_1f1(a[0], b[0], x)); }
  else if(p == 2 && q == 0) { O.res(ef::hypergeometric_2f0(a[0], a[1], x)); }
  else if(p == 2 && q == 1) { O.res(ef::hypergeometric_2f1(a[0], a[1], b[0], x)); }
  else { O.res(g); }
  O.res(g);
}
