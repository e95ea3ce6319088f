// e_float arithmetic, comparison, classification, conversion, text.
#include "vh.h"
#include <cmath>
#include <locale>
using namespace vh;

#define BIN(name, expr) OPL(name, { const e_float a = A[0].ef(), b = A[1].ef(); O.in(a); O.in(b); O.res(expr); })
BIN("add", a + b) BIN("sub", a - b) BIN("mul", a * b) BIN("div", a / b)
#define UN(name, expr) OPL(name, { const e_float a = A[0].ef(); O.in(a); O.res(expr); })
UN("val", a) UN("neg", -a) UN("pos", +a) 
UN("inv", e_float(a).calculate_inv()) UN("sqrtm", e_float(a).calculate_sqrt())
UN("fabs", ef::fabs(a)) UN("abs", ef::abs(a)) 
UN("floor", ef::floor(a)) UN("ceil", ef::ceil(a)) UN("ipart", ef::integer_part(a)) UN("dpart", ef::decimal_part(a))
UN("sgn", ef::sgn(a)) UN("isint", a.isint()) UN("isone", a.isone()) UN("iszero", a.iszero()) UN("isneg", a.isneg()) UN("ispos", a.ispos())
UN("isfinite", a.isfinite()) UN("isinf", a.isinf()) UN("isnan", a.isnan())
UN("order", (long long) a.order()) 
UN("to_double", a.extract_double()) UN("to_ldouble", a.extract_long_double())
UN("to_sll", a.extract_signed_long_long()) UN("to_ull", a.extract_unsigned_long_long())
UN("to_int32", ef::to_int32(a)) UN("to_int64", ef::to_int64(a))
UN("small_arg", ef::small_arg(a)) UN("large_arg", ef::large_arg(a)) UN("near_one", ef::near_one(a)) UN("near_int", ef::near_int(a))
BIN("fmod", ef::fmod(a, b))
UN("invf", ef::inv(a)) BIN("divq", a / b)
BIN("cmp", a.compare(b)) 
OP("rel") { const e_float a = A[0].ef(), b = A[1].ef(); O.in(a); O.in(b); O.res(a < b); O.res(a <= b); O.res(a == b); O.res(a != b); O.res(a >= b); O.res(a > b); }
OP("parts") { const e_float a = A[0].ef(); double m = 0; std::int64_t e = 0; ef::to_parts(a, m, e); O.in(a); O.res(m); O.res((long long) e); }

OP("addeq") { e_float a = A[0].ef(); const e_float b = A[1].ef(); O.in(a); O.in(b); a += b; O.res(a); }
OP("subeq") { e_float a = A[0].ef(); const e_float b = A[1].ef(); O.in(a); O.in(b); a -= b; O.res(a); }
OP("muleq") { e_float a = A[0].ef(); const e_float b = A[1].ef(); O.in(a); O.in(b); a *= b; O.res(a); }
OP("diveq") { e_float a = A[0].ef(); const e_float b = A[1].ef(); O.in(a); O.in(b); a /= b; O.res(a); }
OP("addcomm") { const e_float a = A[0].ef(), b = A[1].ef(); O.in(a); O.in(b); O.res(a + b); O.res(b + a); O.res(a - b); O.res(b - a); }
OP("mulcomm") { const e_float a = A[0].ef(), b = A[1].ef(); O.in(a); O.in(b); O.res(a * b); O.res(b * a); }
OP("inc") { e_float a = A[0].ef(); O.in(a); ++a; O.res(a); }
OP("dec") { e_float a = A[0].ef(); O.in(a); --a; O.res(a); }
OP("postinc") { e_float a = A[0].ef(); O.in(a); const e_float o(a++); O.res(a); O.res(o); }
OP("postdec") { e_float a = A[0].ef(); O.in(a); const e_float o(a--); O.res(a); O.res(o); }
OP("selfadd") { e_float a = A[0].ef(); O.in(a); a += a; O.res(a); }
OP("selfsub") { e_float a = A[0].ef(); O.in(a); a -= a; O.res(a); }
OP("selfmul") { e_float a = A[0].ef(); O.in(a); a *= a; O.res(a); }
OP("selfdiv") { e_float a = A[0].ef(); O.in(a); a /= a; O.res(a); }
OP("sqr") { const e_float a = A[0].ef(); e_float b(a); const e_float c(a); O.in(a); b *= b; O.res(b); O.res(a * c); O.res(a * a); }
OP("lit") { O.in(A[0].s()); O.res(e_float(A[0].s())); }
OP("ints") { const e_float a = A[0].ef(); O.in(a); const e_float i = ef::integer_part(a), d = ef::decimal_part(a);
  O.res(i); O.res(d); O.res(ef::floor(a)); O.res(ef::ceil(a)); O.res(ef::isint(a)); O.res((long long) ef::order_of(a)); O.res(i + d); }
OP("ldexp") { const e_float a = A[0].ef(); O.in(a); O.in(A[1].i()); O.res(ef::ldexp(a, (int) A[1].i())); }
OP("frexp") { const e_float a = A[0].ef(); O.in(a); int n = 0; const e_float m = ef::frexp(a, &n); O.res(m); O.res((long long) n); O.res(ef::ldexp(m, n)); }
