// Histories: sequences of calls, each history in a process of its own in which nothing was called before.
// A call is  <function index> <argument index>; it is recorded as the text of its results, which is to be the
// same whatever was called before, when the result overwrites another value, and when it overwrites the argument.
#include "vh.h"
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>
#include <functions/gamma/gamma_util.h>
#include <functions/integer/prime_factors.h>
#include <utility/util_digit_scale.h>
#include <utility/util_power_j_pow_x.h>
#include <csignal>
#include <stdexcept>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vh;
typedef ef::complex<e_float> C;

namespace {
const char* const reals[] = { "0.5", "-0.75", "2", "0.1234567890123456789", "1.0000000000000000000000000001", "17.5", "-3", "1e-30", "0", "123.456", "0.99", "-0.01" };
constexpr unsigned NA = sizeof(reals) / sizeof(reals[0]);
const unsigned ints[] = { 3, 10, 47, 100, 0, 61, 33, 170, 1, 250, 7, 18 };
e_float X(unsigned a) { return e_float(reals[a % NA]); }
unsigned N(unsigned a) { return ints[a % NA]; }
C Z(unsigned a) { return C(X(a), X(a + 5)); }
std::string T(const e_float& x) { return J(x); }
std::string T(const C& z) { return J(z.real()) + J(z.imag()); }
std::string T(const std::string& s) { return s; }
typedef std::function<std::string(unsigned)> Call;
std::vector<Call> calls;
// a function of one argument: three ways to take the result, and the argument afterwards
template<typename A, typename F> std::string three(const A& x0, F f)
{
  const A x(x0); const std::string s(T(x));
  const A r(f(x)); A y(7); y = f(x); A z(x); z = f(z);
  std::string t(T(r));
  if(T(y) != t) { t += " overwriting: " + T(y); }
  if(T(z) != t) { t += " in place: " + T(z); }
  if(T(x) != s) { t += " argument: " + T(x); }
  return t;
}
template<typename A, typename F> std::string three2(const A& x0, const A& y0, F f)
{
  const A x(x0), y(y0); const std::string s(T(x) + T(y));
  const A r(f(x, y)); A u(7); u = f(x, y); A v(x); v = f(v, y); A w(y); w = f(x, w);
  std::string t(T(r));
  if(T(u) != t) { t += " overwriting: " + T(u); }
  if(T(v) != t) { t += " in place of the first: " + T(v); }
  if(T(w) != t) { t += " in place of the second: " + T(w); }
  if(T(x) + T(y) != s) { t += " argument: " + T(x) + T(y); }
  return t;
}
struct Fill
{
  template<typename F> void u(F f) { calls.push_back([f](unsigned a) { return three<e_float>(X(a), f); }); }
  template<typename F> void c(F f) { calls.push_back([f](unsigned a) { return three<C>(Z(a), f); }); }
  template<typename F> void b(F f) { calls.push_back([f](unsigned a) { return three2<e_float>(X(a), X(a * 7 + 3), f); }); }
  template<typename F> void cb(F f) { calls.push_back([f](unsigned a) { return three2<C>(Z(a), Z(a * 7 + 3), f); }); }
  template<typename F> void n(F f) { calls.push_back([f](unsigned a) { return T(f(N(a))); }); }
  Fill()
  {
#define U(g) u([](const e_float& x) { return ef::g(x); });
    U(sqrt) U(cbrt) U(exp) U(log) U(log10) U(log1p) U(log1p1m2) U(sin) U(cos) U(tan) U(sec) U(csc) U(cot) U(asin) U(acos) U(atan) U(sinh) U(cosh) U(tanh) U(asinh) U(acosh) U(atanh)
    U(inv) U(floor) U(ceil) U(integer_part) U(decimal_part) U(fabs) U(abs) U(gamma) U(riemann_zeta) U(hypergeometric_0f0) U(real) U(imag)
#define B2(g) b([](const e_float& x, const e_float& y) { return ef::g(x, y); });
    B2(atan2) B2(pow) B2(loga) B2(fmod) B2(binomial) B2(pochhammer) B2(hypergeometric_0f1)
    b([](const e_float& x, const e_float& y) { return x + y; }); b([](const e_float& x, const e_float& y) { return x - y; }); b([](const e_float& x, const e_float& y) { return x * y; }); b([](const e_float& x, const e_float& y) { return x / y; });
    u([](const e_float& x) { return ef::rootn(x, 5); }); u([](const e_float& x) { return ef::rootn(x, 7); }); u([](const e_float& x) { return ef::rootn_inverse(x, 3); }); u([](const e_float& x) { return ef::pow(x, (std::int64_t) 13); }); u([](const e_float& x) { return ef::pow(x, (std::int64_t) -4); });
    u([](const e_float& x) { return ef::ldexp(x, 40); }); u([](const e_float& x) { int n = 0; const e_float m(ef::frexp(x, &n)); return m + n; });
    u([](const e_float& x) { e_float s, c; ef::sincos(x, &s, &c); return s * 3 + c; }); u([](const e_float& x) { e_float s, c; ef::sinhcosh(x, &s, &c); return s * 3 + c; });
    u([](const e_float& x) { return ef::gamma_near_n(-2, x / 1000); }); u([](const e_float& x) { e_float p, m; GammaUtil::GammaOfPlusXMinusX(x + e_float("0.3"), p, m); return p + m; });
    u([](const e_float& x) { return ef::hypergeometric_1f0(x, e_float("0.3")); }); u([](const e_float& x) { return ef::hypergeometric_1f1(e_float("0.7"), e_float("1.3"), x); }); u([](const e_float& x) { return ef::hypergeometric_2f1(x, e_float("1.5"), e_float("2.25"), e_float("-0.4")); });
    u([](const e_float& x) { return ef::pochhammer(x, 6U); }); u([](const e_float& x) { return ef::binomial(x, 5U); }); u([](const e_float& x) { return ef::binomial(12U, x); });
    u([](const e_float& x) { std::map<std::uint32_t, e_float> m; return Util::j_pow_x(60, x, m); }); u([](const e_float& x) { std::map<std::uint32_t, e_float> m; return Util::j_pow_x(7919, x, m); });
#define CU(g) c([](const C& z) { return ef::g(z); });
    CU(sqrt) CU(exp) CU(log) CU(log10) CU(sin) CU(cos) CU(tan) CU(sinh) CU(cosh) CU(tanh) CU(asin) CU(acos) CU(atan) CU(asinh) CU(acosh) CU(atanh) CU(gamma) CU(riemann_zeta) CU(conj)
    c([](const C& z) { return ef::pow(z, (std::int64_t) 5); }); c([](const C& z) { return ef::pow(z, (std::int64_t) -3); }); c([](const C& z) { return ef::pochhammer(z, 4U); }); c([](const C& z) { return C(ef::abs(z), ef::arg(z)); });
    cb([](const C& x, const C& y) { return ef::pow(x, y); }); cb([](const C& x, const C& y) { return x * y; }); cb([](const C& x, const C& y) { return x / y; }); cb([](const C& x, const C& y) { return x + y; });
#define NN(g) n([](unsigned k) { return ef::g(k); });
    NN(factorial) NN(bernoulli) n([](unsigned k) { return ef::factorial2((int) k); }); n([](unsigned k) { return ef::factorial2(-(int) k); }); n([](unsigned k) { return ef::riemann_zeta((std::int32_t) k); }); n([](unsigned k) { return ef::riemann_zeta(-(std::int32_t) k); });
    n([](unsigned k) { return ef::binomial(k + 20, k); }); n([](unsigned k) { return ef::pow2((std::int64_t) k); }); n([](unsigned k) { return ef::pow2(-(std::int64_t) k); });
    n([](unsigned k) { std::vector<e_float> b; ef::bernoulli_table(b, k); std::string s; for(const e_float& x : b) { s += T(x); } return s; });
    n([](unsigned k) { std::deque<std::uint32_t> d; ef::prime(k * 20, d); std::string s("p"); for(std::uint32_t p : d) { s += ' ' + std::to_string(p); } return s; });
    n([](unsigned k) { std::deque<Util::point<std::uint32_t>> d; ef::prime_factors(2 + k * 31, d); std::string s; for(const auto& p : d) { s += ' ' + std::to_string(p.x) + '^' + std::to_string(p.y); } return s; });
    n([](unsigned k) { std::ostringstream os; os.precision((int) k + 1); os << ef::pi() << ' ' << std::fixed << e_float("1234.5678") << ' ' << std::scientific << e_float(-7); return os.str(); });
    n([](unsigned k) { std::istringstream is("12.5 -3e" + std::to_string(k) + " 0.1"); e_float x, y, z; is >> x >> y >> z; return T(x) + T(y) + T(z); });
    n([](unsigned k) { const e_float x((double) k / 7); return T(x) + T(e_float((long long) k)) + T(e_float((float) k / 3)) + T(e_float((long double) k / 11)) + T(e_float(-(int) k)); });
    n([](unsigned) { return e_float(Util::DigitScale()); });
    // constants (an argument picks two of them)
    typedef const e_float& (*K)();
    static const std::vector<K> ks = { &ef::pi, &ef::e, &ef::ln2, &ef::ln10, &ef::euler_gamma, &ef::catalan, &ef::khinchin, &ef::glaisher, &ef::sqrt2, &ef::phi, &ef::two_pi, &ef::pi_half, &ef::pi_squared, &ef::sqrt_pi, &ef::googol,
      &ef::int64_min, &ef::int64_max, &ef::int32_min, &ef::double_min, &ef::double_max, &ef::long_double_max, &ef::third, &ef::two_third, &ef::tenth, &ef::one, &ef::zero, &ef::half, &ef::million, &ef::unsigned_long_long_max };
    for(std::size_t i = 0; i < ks.size(); ++i) { const K k = ks[i]; calls.push_back([k](unsigned) { return T(k()); }); }
    typedef std::numeric_limits<e_float> L;
    n([](unsigned) { return T((L::max)()) + T((L::min)()) + T(L::epsilon()) + T(L::infinity()) + T(L::quiet_NaN()) + T(L::lowest()) + T(L::round_error()); });
    n([](unsigned) { return T(ef::value_max()) + T(ef::value_min()) + T(ef::value_eps()) + T(ef::value_inf()) + T(ef::value_nan()); });
  }
};
void run(const Args& A, int fd)
{
  static Fill* const fill = new Fill; (void) fill;
  if(std::getenv("VERIF_COUNT")) { std::fprintf(stderr, "calls %d\n", (int) calls.size()); }
  std::string s;
  for(std::size_t k = 0; k + 1 < A.size(); k += 2)
  {
    const unsigned f = (unsigned) (A[k].u() % calls.size()), a = (unsigned) (A[k + 1].u() % NA);
    s += (k ? ",{\"f\":" : "{\"f\":") + std::to_string(f) + ",\"a\":" + std::to_string(a) + ",\"t\":\"" + esc(calls[f](a)) + "\"}";
  }
  s += "\n";
  for(std::size_t at = 0; at < s.size();) { const ssize_t w = write(fd, s.data() + at, s.size() - at); if(w <= 0) { _exit(9); } at += (std::size_t) w; }
}
}
// result: the calls in order, or nothing when the process came to a bad end
OP("hist")
{
  int p[2]; if(pipe(p) != 0) { std::abort(); }
  const pid_t pid = fork();
  if(pid == 0)
  {
    close(p[0]); for(int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM }) { std::signal(s, SIG_DFL); }
    itimerval t; std::memset(&t, 0, sizeof t); t.it_value.tv_sec = 15; setitimer(ITIMER_VIRTUAL, &t, nullptr);
    try { run(A, p[1]); } catch(...) { _exit(8); }
    _exit(0);
  }
  close(p[1]); std::string s; char b[65536]; ssize_t n;
  while((n = read(p[0], b, sizeof b)) > 0) { s.append(b, (std::size_t) n); }
  close(p[0]); int st = 0; waitpid(pid, &st, 0);
  if(st != 0 || s.empty() || s.back() != '\n') { throw std::runtime_error("a history came to a bad end"); }
  s.pop_back(); O.r.push_back("[" + s + "]");
}
