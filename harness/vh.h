// Conformance harness: executes spec-generated operations on the real library through its
// public API only and records operands and results (NDJSON) for checking against the TLA+ spec.
#ifndef VH_H
#define VH_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>

namespace vh {

#if defined(E_FLOAT_TYPE_EFX)
constexpr const char* backend = "efx";
#elif defined(E_FLOAT_TYPE_GMP)
constexpr const char* backend = "gmp";
#else
constexpr const char* backend = "mpfr";
#endif

// ---------------------------------------------------------------- observation
// A finite value is observed as one or two decimal parts m*10^e whose exact sum is the value
// (the second part is what is left after the first |digits| digits).
struct DecPart { std::string m; long long e; };

inline DecPart split_scientific(const std::string& s)
{
  DecPart p; p.e = 0;
  std::size_t i = 0; bool neg = false;
  if(i < s.size() && (s[i] == '+' || s[i] == '-')) { neg = (s[i] == '-'); ++i; }
  int frac = 0; bool dot = false; std::string d;
  for(; i < s.size() && s[i] != 'e' && s[i] != 'E'; ++i)
  {
    if(s[i] == '.') { dot = true; continue; }
    d.push_back(s[i]); if(dot) { ++frac; }
  }
  if(i < s.size()) { p.e = std::strtoll(s.c_str() + i + 1, nullptr, 10); }
  p.e -= frac;
  std::size_t nz = d.find_first_not_of('0');
  if(nz == std::string::npos) { p.m = "0"; p.e = 0; return p; }
  std::size_t lz = d.find_last_not_of('0');
  p.e += static_cast<long long>(d.size() - 1 - lz);
  d = d.substr(nz, lz - nz + 1);
  for(char c : d) { if(c < '0' || c > '9') { p.m = "BAD"; p.e = 0; return p; } }
  p.m = (neg ? "-" : "") + d;
  return p;
}

inline std::string print_sci(const e_float& x, int digits)
{
  std::ostringstream os;
  os << std::scientific << std::setprecision(digits - 1) << x;
  return os.str();
}

constexpr int main_digits = (std::numeric_limits<e_float>::max_digits10 < 2000000 ? std::numeric_limits<e_float>::max_digits10 : 2000000);

inline std::string esc(const std::string& s)
{
  std::string r;
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\') { r.push_back('\\'); r.push_back((char) c); }
    else if(c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else { r.push_back((char) c); }
  }
  return r;
}

// JSON of a value. k: "n"aN, "i"nf, "z"ero, "f"inite.
inline std::string J(const e_float& x0)
{
  e_float x(x0);
  long long scale = 0;
  if(x.isnan()) { return "{\"k\":\"n\"}"; }
  if(x.isinf()) { return std::string("{\"k\":\"i\",\"s\":") + (x.isneg() ? "1" : "0") + "}"; }
#if defined(E_FLOAT_TYPE_MPFR)
  // this back end keeps the sign of a zero, which only a division shows
  if(x.iszero()) { return std::string("{\"k\":\"z\",\"s\":") + ((e_float(1) /= x).isneg() ? "1" : "0") + "}"; }
#else
  if(x.iszero()) { return "{\"k\":\"z\",\"s\":0}"; }
#endif
  // next to the lower end of the exponent range the remainder below would underflow
  if(x.order() < static_cast<std::int64_t>(std::numeric_limits<e_float>::min_exponent10) + 1000) { x *= e_float("1e200000"); scale = -200000; }
  // next to the upper end the text would read back as infinity
  else if(x.order() > static_cast<std::int64_t>(std::numeric_limits<e_float>::max_exponent10) - 1000) { x *= e_float("1e-100000"); scale = 100000; }
  std::string s = print_sci(x, main_digits);
  e_float y(s);
  if((!y.isfinite()) || (x.isneg() ? (y < x) : (x < y)))
  {
    // rounded away from zero: step down to 40 digits below, so that what is left keeps the sign of x and
    // is found without loss
    DecPart p = split_scientific(s);
    const bool neg = p.m[0] == '-'; if(neg) { p.m.erase(0, 1); }
    // (at hundreds of digits: 60 digits above the last one)
    constexpr std::size_t keep = main_digits > 130 ? main_digits - 60 : 40;
    if(p.m.size() > keep) { p.e += (long long) p.m.size() - (long long) keep; p.m.resize(keep); }
    while(p.m.size() < keep) { p.m.push_back('0'); --p.e; }
    std::size_t i = keep - 1; while(p.m[i] == '0') { p.m[i--] = '9'; }
    --p.m[i];
    s = (neg ? "-" : "") + p.m + "e" + std::to_string(p.e);
    y = e_float(s);
  }
  DecPart p = split_scientific(s); p.e += scale;
  std::string r = "{\"k\":\"f\",\"m\":\"" + p.m + "\",\"e\":\"" + std::to_string(p.e) + "\"";
  if(y.isfinite())
  {
    e_float d(x); d -= y;
    if(d.isfinite() && !d.iszero())
    {
      DecPart q = split_scientific(print_sci(d, 100 < main_digits ? 100 : main_digits)); q.e += scale;
      r += ",\"m2\":\"" + q.m + "\",\"e2\":\"" + std::to_string(q.e) + "\"";
    }
  }
  return r + "}";
}
inline std::string J(bool b)               { return b ? "{\"k\":\"b\",\"v\":true}" : "{\"k\":\"b\",\"v\":false}"; }
inline std::string J(long long n)          { return "{\"k\":\"N\",\"v\":\"" + std::to_string(n) + "\"}"; }
inline std::string J(unsigned long long n) { return "{\"k\":\"N\",\"v\":\"" + std::to_string(n) + "\"}"; }
inline std::string J(int n)                { return J(static_cast<long long>(n)); }
inline std::string J(long n)               { return J(static_cast<long long>(n)); }
inline std::string J(unsigned n)           { return J(static_cast<unsigned long long>(n)); }
inline std::string J(unsigned long n)      { return J(static_cast<unsigned long long>(n)); }
inline std::string J(const std::string& s) { return "{\"k\":\"s\",\"v\":\"" + esc(s) + "\"}"; }
inline std::string J(const char* s)        { return J(std::string(s)); }
// A binary floating-point value is observed exactly as  (-1)^s * m * 2^e.
template<typename F> inline std::string Jbin(F f, int digits)
{
  if(f != f) { return "{\"k\":\"n\"}"; }
  const bool neg = std::signbit(f);
  if(f == (std::numeric_limits<F>::infinity)() || f == -(std::numeric_limits<F>::infinity)()) { return std::string("{\"k\":\"i\",\"s\":") + (neg ? "1}" : "0}"); }
  if(f == 0) { return std::string("{\"k\":\"z\",\"s\":") + (neg ? "1}" : "0}"); }
  int e = 0; F m = std::frexp(neg ? -f : f, &e);
  m = std::ldexp(m, digits);
  return std::string("{\"k\":\"2\",\"s\":") + (neg ? "1" : "0") + ",\"m\":\"" + std::to_string(static_cast<unsigned long long>(m)) + "\",\"e\":\"" + std::to_string(e - digits) + "\"}";
}
inline std::string J(double f)      { return Jbin<double>(f, 53); }
inline std::string J(float f)       { return Jbin<float>(f, 24); }
inline std::string J(long double f) { return Jbin<long double>(f, 64); }

// ---------------------------------------------------------------- operands
struct Arg
{
  char t; std::string v;
  e_float     ef () const;
  long long   i  () const { return std::strtoll(v.c_str(), nullptr, 10); }
  unsigned long long u() const { return std::strtoull(v.c_str(), nullptr, 10); }
  double      d  () const { return std::strtod(v.c_str(), nullptr); }
  float       f  () const { return std::strtof(v.c_str(), nullptr); }
  long double l  () const { return std::strtold(v.c_str(), nullptr); }
  std::string s  () const { return v; }
};

inline e_float Arg::ef() const
{
  if(v == "nan")  { return std::numeric_limits<e_float>::quiet_NaN(); }
  if(v == "inf")  { return std::numeric_limits<e_float>::infinity(); }
  if(v == "-inf") { return -std::numeric_limits<e_float>::infinity(); }
  if(v == "max")  { return (std::numeric_limits<e_float>::max)(); }
  if(v == "-max") { return -(std::numeric_limits<e_float>::max)(); }
  if(v == "min")  { return (std::numeric_limits<e_float>::min)(); }
  if(v == "-min") { return -(std::numeric_limits<e_float>::min)(); }
  if(v == "-0")   { e_float z(0); z.negate(); return z; }
  return e_float(v);
}

typedef std::vector<Arg> Args;
struct Out
{
  std::vector<std::string> a; // observed operands
  std::vector<std::string> r; // observed results
  template<typename T> void in (const T& x) { a.push_back(J(x)); }
  template<typename T> void res(const T& x) { r.push_back(J(x)); }
};

typedef std::function<void(const Args&, Out&)> Op;
inline std::map<std::string, Op>& registry() { static std::map<std::string, Op> m; return m; }
struct Reg { Reg(const char* n, Op o) { registry()[n] = o; } };

} // namespace vh

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_OP(name, f, g) static void f(const vh::Args&, vh::Out&); static vh::Reg g(name, f); static void f(const vh::Args& A, vh::Out& O)
#define VH_OP1(name, n) VH_OP(name, VH_CAT(vh_op_, n), VH_CAT(vh_reg_, n))
#define OP(name) VH_OP1(name, __COUNTER__)
#define VH_OPL1(name, n, ...) static vh::Reg VH_CAT(vh_reg_, n)(name, [](const vh::Args& A, vh::Out& O) { __VA_ARGS__ });
#define OPL(name, ...) VH_OPL1(name, __COUNTER__, __VA_ARGS__)
#endif
