// C06, C07, C08: comparison, and arithmetic and conversion with every built-in arithmetic type.
#include "vh.h"
#include <algorithm>
#include <utility>
using namespace vh;

template<typename T> static T num(const Arg& a, std::true_type)  { return a.v[0] == '-' ? static_cast<T>(a.i()) : static_cast<T>(a.u()); }
template<typename T> static T num(const Arg& a, std::false_type) { return sizeof(T) == sizeof(float) ? static_cast<T>(a.f()) : sizeof(T) == sizeof(double) ? static_cast<T>(a.d()) : static_cast<T>(a.l()); }
template<typename T> static T num(const Arg& a) { return num<T>(a, std::integral_constant<bool, std::is_integral<T>::value>()); }
static std::string Jb(bool b) { return J((long long) b); }
template<typename T> static std::string Jn(T v, std::true_type)  { return std::is_signed<T>::value ? J(static_cast<long long>(v)) : J(static_cast<unsigned long long>(v)); }
template<typename T> static std::string Jn(T v, std::false_type) { return J(v); }
template<typename T> static std::string Jn(T v) { return Jn(v, std::integral_constant<bool, std::is_integral<T>::value>()); }

template<typename T> static void mix(const Args& A, Out& O)
{
  const e_float x = A[0].ef(); const T n = num<T>(A[1]);
  O.in(x); O.a.push_back(Jn(n));
  O.res(x + n); O.res(n + x); O.res(x - n); O.res(n - x); O.res(x * n); O.res(n * x); O.res(x / n); O.res(n / x);
  { e_float y(x); const e_float r(y += n); O.res(y); O.res(r); }
  { e_float y(x); const e_float r(y -= n); O.res(y); O.res(r); }
  { e_float y(x); const e_float r(y *= n); O.res(y); O.res(r); }
  { e_float y(x); const e_float r(y /= n); O.res(y); O.res(r); }
  O.res(x);
}
static void rels(Out& O, bool lt, bool le, bool eq, bool ne, bool ge, bool gt)
{
  std::string s; s += lt ? 'T' : 'F'; s += le ? 'T' : 'F'; s += eq ? 'T' : 'F'; s += ne ? 'T' : 'F'; s += ge ? 'T' : 'F'; s += gt ? 'T' : 'F';
  O.res(s);
}
template<typename T> static void cmpn(const Args& A, Out& O)
{
  const e_float x = A[0].ef(); const T n = num<T>(A[1]);
  O.in(x); O.a.push_back(Jn(n));
  rels(O, x < n, x <= n, x == n, x != n, x >= n, x > n);
  rels(O, n < x, n <= x, n == x, n != x, n >= x, n > x);
}
template<typename T> static T back(const e_float& x, std::true_type)  { return std::is_signed<T>::value ? static_cast<T>(x.extract_signed_long_long()) : static_cast<T>(x.extract_unsigned_long_long()); }
template<typename T> static T back(const e_float& x, std::false_type) { return static_cast<T>(sizeof(T) <= sizeof(double) ? x.extract_double() : x.extract_long_double()); }
template<typename T> static void from(const Args& A, Out& O)
{
  const T n = num<T>(A[1]);
  O.a.push_back(Jn(n));
  const e_float x(n);
  e_float y("-7.5e33"); y = n;
  O.res(x); O.res(y);
  O.a.push_back(J(std::string(std::is_integral<T>::value ? "i" : "f")));
  if(std::is_integral<T>::value || x.isfinite()) { O.r.push_back(Jn(back<T>(x, std::integral_constant<bool, std::is_integral<T>::value>()))); }
}
// a(1) = x, a(2) = type name, a(3) = number
#define TYPES(X) X("bool", bool) X("char", char) X("schar", signed char) X("uchar", unsigned char) X("short", short) X("ushort", unsigned short) X("int", int) X("uint", unsigned) \
  X("long", long) X("ulong", unsigned long) X("llong", long long) X("ullong", unsigned long long) X("float", float) X("double", double) X("ldouble", long double)
#define R1(nm, T) static Reg VH_CAT(reg_m_, __COUNTER__)("mix_" nm, mix<T>); static Reg VH_CAT(reg_c_, __COUNTER__)("cmp_" nm, cmpn<T>); static Reg VH_CAT(reg_f_, __COUNTER__)("from_" nm, from<T>);
TYPES(R1)

static void cmp2(const e_float& a, const e_float& b, Out& O)
{
  O.in(a); O.in(b);
  rels(O, a < b, a <= b, a == b, a != b, a >= b, a > b);
  rels(O, b < a, b <= a, b == a, b != a, b >= a, b > a);
  O.res(a.compare(b)); O.res(b.compare(a)); O.res((int) a.cmp(b)); O.res((int) b.cmp(a));
  O.res((std::min)(a, b)); O.res((std::max)(a, b));
  O.res(a - b);
}
OP("cmp") { cmp2(A[0].ef(), A[1].ef(), O); }
// the same value reached in different ways
OP("cmpway")
{
  const e_float a = A[0].ef(), b = A[1].ef();
  const long long w = A[2].i();
  e_float c(a);
  switch(w)
  {
    case 0: c = (a + b) - b; break;
    case 1: c = (a * b) / b; break;
    case 2: c = -(-a); break;
    case 3: c += b; c -= b; break;
    case 4: c = e_float(1) / (e_float(1) / a); break;
    case 5: c = b; c = a; c.precision(std::numeric_limits<e_float>::digits10); break;
    case 6: c = a * 3; c /= 3; break;
    case 7: { e_float t(b); t = std::move(c); c = t; } break;
    case 8: c = ef::fabs(a); if(a.isneg()) { c.negate(); } break;
    case 9: c = a.extract_integer_part() + a.extract_decimal_part(); break;
  }
  cmp2(a, c, O);
}
OP("cmpself") { const e_float a = A[0].ef(); cmp2(a, a, O); }

OP("out")
{
  const e_float a = A[0].ef();
  O.in(a);
  O.res(a.extract_signed_long_long()); O.res(a.extract_unsigned_long_long());
  O.res((long long) ef::to_int32(a)); O.res((long long) ef::to_int64(a));
  O.res(a.extract_double()); O.res(a.extract_long_double()); O.res(ef::to_double(a));
  double m = 0; std::int64_t e = 0; ef::to_parts(a, m, e); O.res(m); O.res((long long) e);
}
OP("frommexp") { const double m = A[0].d(); O.in(m); O.in(A[1].i()); O.res(e_float(m, (std::int64_t) A[1].i())); }
