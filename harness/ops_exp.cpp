// exploration only
#include "vh.h"
using namespace vh;
#define UN(name, expr) OPL(name, { const e_float a = A[0].ef(); O.in(a); O.res(expr); })
UN("exp", ef::exp(a)) UN("log", ef::log(a)) UN("sin", ef::sin(a)) UN("cos", ef::cos(a)) UN("tan", ef::tan(a))
UN("asin", ef::asin(a)) UN("acos", ef::acos(a)) UN("atan", ef::atan(a)) UN("sinh", ef::sinh(a)) UN("cosh", ef::cosh(a)) UN("tanh", ef::tanh(a))
UN("asinh", ef::asinh(a)) UN("acosh", ef::acosh(a)) UN("atanh", ef::atanh(a)) UN("sqrt", ef::sqrt(a)) UN("cbrt", ef::cbrt(a))
UN("log10", ef::log10(a)) UN("log1p", ef::log1p(a)) UN("gamma", ef::gamma(a)) UN("zeta", ef::riemann_zeta(a))
OPL("pow", { const e_float a = A[0].ef(), b = A[1].ef(); O.in(a); O.in(b); O.res(ef::pow(a,b)); })
OPL("atan2", { const e_float a = A[0].ef(), b = A[1].ef(); O.in(a); O.in(b); O.res(ef::atan2(a,b)); })
OPL("pown", { const e_float a = A[0].ef(); O.in(a); O.res(ef::pow(a,A[1].i())); })
OPL("rootn", { const e_float a = A[0].ef(); O.in(a); O.res(ef::rootn(a,A[1].i())); })
OPL("selfsub", { e_float a = A[0].ef(); O.in(a); a -= a; O.res(a); })
OPL("selfadd", { e_float a = A[0].ef(); O.in(a); a += a; O.res(a); })
OPL("selfmul", { e_float a = A[0].ef(); O.in(a); a *= a; O.res(a); })
OPL("selfdiv", { e_float a = A[0].ef(); O.in(a); a /= a; O.res(a); })
