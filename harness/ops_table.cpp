// C04: every operation on every class of operand, with the classification of the result; C05 literals.
#include "vh.h"
using namespace vh;
static std::string flags(const e_float& x)
{
  std::string s;
  s += x.isnan() ? "N" : "-"; s += x.isinf() ? "I" : "-"; s += x.isfinite() ? "F" : "-"; s += x.iszero() ? "Z" : "-";
  s += x.isone() ? "1" : "-"; s += x.isneg() ? "m" : "-"; s += x.ispos() ? "p" : "-"; s += x.isint() ? "i" : "-";
  s += ef::isnan(x) ? "N" : "-"; s += ef::isinf(x) ? "I" : "-"; s += ef::isfinite(x) ? "F" : "-"; s += ef::iszero(x) ? "Z" : "-";
  s += ef::isone(x) ? "1" : "-"; s += ef::isneg(x) ? "m" : "-"; s += ef::ispos(x) ? "p" : "-"; s += ef::isint(x) ? "i" : "-";
  return s;
}
static void put(Out& O, const e_float& x) { O.res(x); O.res(flags(x)); }
#define TB(name, expr) OPL(name, { const e_float a = A[0].ef(), b = A[1].ef(); O.in(a); O.in(b); put(O, expr); })
#define TC(name, stmt) OPL(name, { e_float a = A[0].ef(); const e_float b = A[1].ef(); O.in(a); O.in(b); stmt; put(O, a); put(O, b); })
#define TU(name, expr) OPL(name, { const e_float a = A[0].ef(); O.in(a); put(O, expr); })
#define TS(name, stmt) OPL(name, { e_float a = A[0].ef(); O.in(a); stmt; put(O, a); })
TB("t_add", a + b) TB("t_sub", a - b) TB("t_mul", a * b) TB("t_div", a / b)
TC("t_addeq", a += b) TC("t_subeq", a -= b) TC("t_muleq", a *= b) TC("t_diveq", a /= b)
TU("t_val", a) TU("t_neg", -a) TU("t_pos", +a) TU("t_abs", ef::abs(a)) TU("t_fabs", ef::fabs(a)) TU("t_inv", ef::inv(a)) TU("t_sqrt", ef::sqrt(a)) 
TS("t_cinv", a.calculate_inv()) TS("t_csqrt", a.calculate_sqrt()) TS("t_negate", a.negate()) TS("t_inc", ++a) TS("t_dec", --a)
TS("t_selfadd", a += a) TS("t_selfsub", a -= a) TS("t_selfmul", a *= a) TS("t_selfdiv", a /= a) TS("t_selfassign", e_float& q = a; a = q)
TS("t_reuse", a = e_float(3); a *= 7; a += 1) // an object that held anything is as good as new after assignment
TU("t_copy", e_float(e_float(a)))
