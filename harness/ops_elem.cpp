// Elementary functions of one and two real arguments.
#include "vh.h"
using namespace vh;
#define F1(n) OP(#n) { const e_float x = A[0].ef(); const e_float y(x); O.in(x); O.res(ef::n(x)); O.res(ef::n(y)); }
#define FI(n, f) OP(n) { const e_float x = A[0].ef(); const long long p = A[1].i(); O.in(x); O.in(p); O.res(f); }
#define F2(n) OP(#n) { const e_float x = A[0].ef(), y = A[1].ef(); O.in(x); O.in(y); O.res(ef::n(x, y)); }
F1(sqrt) F1(cbrt) F1(exp) F1(log) F1(log10) F1(log1p) F1(sin) F1(cos) F1(tan) F1(sec) F1(csc) F1(cot) F1(asin) F1(acos) F1(atan)
F1(sinh) F1(cosh) F1(tanh) F1(asinh) F1(acosh) F1(atanh)
FI("rootn", ef::rootn(x, (std::int32_t) p)) FI("rootninv", ef::rootn_inverse(x, (std::int32_t) p)) FI("powi", ef::pow(x, (std::int64_t) p))
OP("pow2") { const long long p = A[0].i(); O.in(p); O.res(ef::pow2(p)); }
OP("pow") { const e_float x = A[0].ef(), y = A[1].ef(); O.in(x); O.in(y); O.res(ef::pow(x, y)); }
OP("loga") { const e_float a = A[0].ef(), x = A[1].ef(); O.in(a); O.in(x); O.res(ef::loga(a, x)); }
OP("atan2") { const e_float y = A[0].ef(), x = A[1].ef(); O.in(y); O.in(x); O.res(ef::atan2(y, x)); }
OP("sincos") { const e_float x = A[0].ef(); e_float s(7), c(7), s1(7), c1(7); O.in(x); ef::sincos(x, &s, &c); ef::sincos(x, &s1, nullptr); ef::sincos(x, nullptr, &c1); O.res(s); O.res(c); O.res(s1 == s); O.res(c1 == c); }
OP("sinhcosh") { const e_float x = A[0].ef(); e_float s(7), c(7), s1(7), c1(7); O.in(x); ef::sinhcosh(x, &s, &c); ef::sinhcosh(x, &s1, nullptr); ef::sinhcosh(x, nullptr, &c1); O.res(s); O.res(c); O.res(s1 == s); O.res(c1 == c); }
