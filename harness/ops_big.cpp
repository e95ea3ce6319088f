// Multiplication-based operations at many digits, at the precision p of the left operand (0: leave it).
#include "vh.h"
using namespace vh;
static e_float arg(const Arg& a, long long p) { e_float x = a.ef(); if(p > 0) { x.precision((std::int32_t) p); } return x; }
OP("mulp") { const long long p = A[2].i(); e_float a = arg(A[0], p); const e_float b = arg(A[1], p); O.in(a); O.in(b); O.in(p); const e_float c(a * b); a *= b; O.res(a); O.res(a == c); }
OP("sqrp") { const long long p = A[1].i(); e_float a = arg(A[0], p); const e_float b(a); O.in(a); O.in(p); const e_float c(a * b); a *= a; O.res(a); O.res(a == c); }
OP("divp") { const long long p = A[2].i(); e_float a = arg(A[0], p); const e_float b = arg(A[1], p); O.in(a); O.in(b); O.in(p); a /= b; O.res(a); }
OP("invp") { const long long p = A[1].i(); e_float a = arg(A[0], p); O.in(a); O.in(p); a.calculate_inv(); O.res(a); }
OP("sqtp") { const long long p = A[1].i(); e_float a = arg(A[0], p); O.in(a); O.in(p); a.calculate_sqrt(); O.res(a); }
