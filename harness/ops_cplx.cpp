// Complex numbers: arithmetic, text, elementary functions.
#include "vh.h"
#include <e_float/e_float_functions_complex.h>
using namespace vh;
typedef ef::complex<e_float> C;
static C Z(const Args& A, int k) { return C(A[k].ef(), A[k + 1].ef()); }
static void I(Out& O, const C& z) { O.in(z.real()); O.in(z.imag()); }
static void R(Out& O, const C& z) { O.res(z.real()); O.res(z.imag()); }
static bool same(const C& a, const C& b) { return a.real() == b.real() && a.imag() == b.imag(); }

// complex with complex: operator, compound, operands unchanged
#define CC(name, op, cop) OP(name) { const C u(Z(A, 0)), v(Z(A, 2)); I(O, u); I(O, v); const C w(u op v); R(O, w); C t(u); C& q = (t cop v); R(O, t); O.res(&q == &t && same(u, Z(A, 0)) && same(v, Z(A, 2))); }
CC("cadd", +, +=) CC("csub", -, -=) CC("cmul", *, *=) CC("cdiv", /, /=)
// one object on both sides
#define CS(name, op, cop) OP(name) { C u(Z(A, 0)); I(O, u); I(O, u); const C w(u op u); R(O, w); u cop u; R(O, u); O.res(true); }
CS("cadds", +, +=) CS("csubs", -, -=) CS("cmuls", *, *=) CS("cdivs", /, /=)
// complex with real: u op x, u op= x
#define CR(name, op, cop) OP(name) { const C u(Z(A, 0)); const e_float x(A[2].ef()); I(O, u); O.in(x); O.in(e_float(0)); R(O, u op x); C t(u); C& q = (t cop x); R(O, t); O.res(&q == &t && same(u, Z(A, 0))); }
CR("cradd", +, +=) CR("crsub", -, -=) CR("crmul", *, *=) CR("crdiv", /, /=)
// real with complex
#define RC(name, op) OP(name) { const e_float x(A[0].ef()); const C v(Z(A, 1)); O.in(x); O.in(e_float(0)); I(O, v); R(O, x op v); R(O, C(x) op v); O.res(same(v, Z(A, 1))); }
RC("rcadd", +) RC("rcsub", -) RC("rcmul", *) RC("rcdiv", /)
// complex with built-in integers
#define CN(name, cop) OP(name) { const C u(Z(A, 0)); const long long n = A[2].i(); I(O, u); O.in(n); O.in(0); C t(u); C& q = (t cop n); R(O, t); \
  C s(u); if(n >= INT32_MIN && n <= INT32_MAX) { s cop (int) n; } else if(n >= 0 && n <= UINT32_MAX) { s cop (unsigned) n; } else { s cop (long) n; } R(O, s); O.res(&q == &t); }
CN("cnadd", +=) CN("cnsub", -=) CN("cnmul", *=) CN("cndiv", /=)
#define CNU(name, cop) OP(name) { const C u(Z(A, 0)); const unsigned long long n = A[2].u(); I(O, u); O.in(n); O.in(0); C t(u); C& q = (t cop n); R(O, t); C s(u); if(n <= UINT32_MAX) { s cop (unsigned) n; } else { s cop (unsigned long) n; } R(O, s); O.res(&q == &t); }
CNU("cuadd", +=) CNU("cusub", -=) CNU("cumul", *=) CNU("cudiv", /=)
// constructions and assignments
OP("cctor") { const C u(Z(A, 0)); const long long n = A[2].i(); I(O, u); O.in(n); O.in((double) n);
  R(O, C((int) (n % 1000000))); R(O, C(n)); R(O, C((double) n)); R(O, C(u.real())); C t(3, 4); t = u; R(O, t); t = t; R(O, t); t = u.imag(); R(O, t); t.real(u.imag()); t.imag(u.real()); R(O, t); R(O, C()); }
// one operand
OP("cun") { const C u(Z(A, 0)); I(O, u); R(O, +u); R(O, -u); R(O, ef::conj(u)); R(O, C(ef::real(u), ef::imag(u))); O.res(ef::norm(u)); O.res(ef::abs(u)); O.res(same(u, Z(A, 0))); }
OP("crel") { const C u(Z(A, 0)), v(Z(A, 2)); I(O, u); I(O, v); const e_float x(v.real());
  std::string s; auto b = [&s](bool t) { s += t ? "T" : "F"; };
  b(u == v); b(u != v); b(v == u); b(v != u); b(u == x); b(u != x); b(x == u); b(x != u); O.res(s); }
OP("cpowi") { const C u(Z(A, 0)); const long long n = A[2].i(); I(O, u); O.in(n); R(O, ef::pow(u, (std::int64_t) n)); O.res(same(u, Z(A, 0))); }
// text: real, imaginary, flags, precision, width, fill
OP("ctext")
{
  const C u(Z(A, 0)); I(O, u); O.in(A[2].s()); O.in(A[3].i()); O.in(A[4].i()); O.in(A[5].s()); O.in((long long) std::numeric_limits<e_float>::max_digits10); O.in((long long) std::numeric_limits<e_float>::digits10);
  std::ostringstream os;
  for(char c : A[2].s()) { switch(c) {
      case 'f': os.setf(std::ios::fixed, std::ios::floatfield); break; case 's': os.setf(std::ios::scientific, std::ios::floatfield); break;
      case 'p': os.setf(std::ios::showpoint); break; case '+': os.setf(std::ios::showpos); break; case 'u': os.setf(std::ios::uppercase); break;
      case 'l': os.setf(std::ios::left, std::ios::adjustfield); break; case 'r': os.setf(std::ios::right, std::ios::adjustfield); break; case 'i': os.setf(std::ios::internal, std::ios::adjustfield); break; } }
  os.precision(A[3].i()); os.width(A[4].i()); os.fill(A[5].s()[0]);
  os << u; O.res(os.str());
  std::string t; { std::ostringstream o2; o2.flags(os.flags()); o2.precision(os.precision()); o2 << u; t = o2.str(); }
  O.res(t);
  { std::istringstream is("  " + t + " (1,2)"); C z(7, 7), y(9, 9); is >> z >> y; R(O, z); O.res(same(y, C(1, 2)) && !is.fail()); }
  { std::string p = t.substr(1, t.find(',') - 1); std::istringstream is("(" + p + ")\n" + p); C z(7, 7), y(9, 9); is >> z >> y; R(O, z); R(O, y); }
}
// text that is no complex number leaves the destination alone and fails the stream
OP("cbad") { O.in(A[0].s()); std::istringstream is(A[0].s()); C z(7, 8); is >> z; O.res(is.fail()); R(O, z); }

#define F(n) OP("c" #n) { const C z(Z(A, 0)); I(O, z); R(O, ef::n(z)); O.res(same(z, Z(A, 0))); }
F(sqrt) F(exp) F(log) F(log10) F(sin) F(cos) F(tan) F(sinh) F(cosh) F(tanh) F(asin) F(acos) F(atan) F(asinh) F(acosh) F(atanh)
OP("carg") { const C z(Z(A, 0)); I(O, z); O.res(ef::arg(z)); }
OP("cpolar") { const e_float r(A[0].ef()), t(A[1].ef()); O.in(r); O.in(t); R(O, ef::polar(r, t)); }
OP("cpow") { const C z(Z(A, 0)), a(Z(A, 2)); I(O, z); I(O, a); R(O, ef::pow(z, a)); O.res(same(z, Z(A, 0)) && same(a, Z(A, 2))); }
OP("cpowr") { const C z(Z(A, 0)); const e_float a(A[2].ef()); I(O, z); O.in(a); O.in(e_float(0)); R(O, ef::pow(z, a)); O.res(true); }
OP("crpow") { const e_float x(A[0].ef()); const C a(Z(A, 1)); O.in(x); O.in(e_float(0)); I(O, a); R(O, ef::pow(x, a)); O.res(true); }
