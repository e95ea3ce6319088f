// Named constants, numeric limits, and the limits the arithmetic shows.
#include "vh.h"
#include <e_float/e_float_functions.h>
#include <generic_functions/elementary/generic_functions_elementary.h>
#include <generic_functions/constants/generic_functions_constants.h>
using namespace vh;
typedef std::numeric_limits<e_float> L;

OP("const")
{
  typedef const e_float& (*F)();
  static const std::map<std::string, F> M =
  {
#define X(n) { #n, static_cast<F>(&ef::n) }
    X(zero), X(one), X(half), X(two), X(three), X(four), X(five), X(six), X(seven), X(eight), X(nine), X(ten), X(fifty), X(hundred), X(thousand), X(million), X(billion), X(trillion), X(googol),
    X(int32_min), X(int32_max), X(int64_min), X(int64_max), X(unsigned_long_long_max), X(signed_long_long_min), X(signed_long_long_max), X(double_min), X(double_max), X(long_double_min), X(long_double_max),
    X(one_minus), X(tenth), X(eighth), X(fifth), X(quarter), X(third), X(two_third), X(three_half),
    X(sqrt2), X(pi), X(pi_half), X(pi_squared), X(two_pi), X(sqrt_pi), X(e), X(ln2), X(ln10), X(phi), X(euler_gamma), X(catalan), X(khinchin), X(glaisher)
#undef X
  };
  const std::string n(A[0].s()); O.in(n);
  if(n == "gpi") { O.res(generic_functions::pi<e_float>()); }
  else if(n == "gln2") { O.res(generic_functions::ln2<e_float>()); }
  else if(n == "ggamma") { O.res(generic_functions::euler_gamma<e_float>()); }
  else { O.res(M.at(n)()); O.res(M.at(n)()); }
}
OP("bool") { O.res(L::is_specialized); O.res(L::is_signed); O.res(L::is_integer); O.res(L::is_exact); O.res(L::is_bounded); O.res(L::is_modulo); O.res(L::has_infinity); O.res(L::has_quiet_NaN); O.res(L::has_signaling_NaN); O.res(L::traps); }
OP("digits") { O.res(L::digits); O.res(L::digits10); O.res(L::max_digits10); O.res(L::radix); }
OP("exps") { O.res(L::min_exponent10); O.res(L::max_exponent10); O.res(L::min_exponent); O.res(L::max_exponent); O.res(L::radix); O.res((L::min)()); O.res((L::max)());
  O.res(e_float("1e" + std::to_string(L::max_exponent10))); O.res(e_float("1e" + std::to_string(L::min_exponent10))); }
OP("vals") { O.res((L::min)()); O.res((L::max)()); O.res(L::lowest()); O.res(L::epsilon()); O.res(L::round_error()); O.res(L::infinity()); O.res(L::quiet_NaN()); O.res(L::denorm_min()); }
OP("edge") { const e_float m((L::max)()), n((L::min)()), e(L::epsilon());
  O.res(m * 10); O.res(m + m); O.res(m - m); O.res(-m - m); O.res(n / 10 / 10); O.res(n - n); O.res(n * 10 / 10); O.res(m / 10); O.res(e_float(1) + e); O.res((e_float(1) + e) > 1); O.res(e_float(1) - e); O.res(m + L::infinity()); O.res(ef::value_max() == m); O.res(ef::value_min() == n); O.res(ef::value_eps() == e); O.res(L::quiet_NaN() + m); }
OP("order") { const e_float m((L::max)()), n((L::min)()); O.res(L::lowest() <= -m); O.res(L::lowest() < 0); O.res(L::lowest() < n); O.res(n > 0); O.res(n < L::epsilon()); O.res(L::epsilon() < 1); O.res(m < L::infinity()); O.res(-L::infinity() < L::lowest()); O.res(L::denorm_min() > 0); }
