// Text: reading literals, writing in every format, reading back.
#include "vh.h"
using namespace vh;

// literal, previous content
OP("lit9")
{
  const std::string s = A[0].s();
  O.in(s);
  O.res(e_float(s));
  O.res(e_float(s.c_str()));
  { std::istringstream is(s); e_float x; is >> x; O.res(x); }
  { std::istringstream is(" \t\n" + s + " 17.5"); e_float x = A[1].ef(), y(3); is >> x >> y; O.res(x); O.res(y); O.res((!is.fail()) && is.eof()); }
  { e_float x = A[1].ef(); x = e_float(s); O.res(x); }
  { e_float x = A[1].ef(); std::istringstream is(s + "\n" + s); is >> x >> x; O.res(x); }
}
static void setup(std::ostream& os, const Args& A)
{
  const std::string f = A[1].s();
  for(char c : f)
  {
    switch(c)
    {
      case 'f': os.setf(std::ios::fixed, std::ios::floatfield); break;
      case 's': os.setf(std::ios::scientific, std::ios::floatfield); break;
      case 'p': os.setf(std::ios::showpoint); break;
      case '+': os.setf(std::ios::showpos); break;
      case 'u': os.setf(std::ios::uppercase); break;
      case 'l': os.setf(std::ios::left, std::ios::adjustfield); break;
      case 'r': os.setf(std::ios::right, std::ios::adjustfield); break;
      case 'i': os.setf(std::ios::internal, std::ios::adjustfield); break;
    }
  }
  os.precision(A[2].i());
}
// value, flags, precision, width, fill
OP("text")
{
  const e_float x = A[0].ef(); O.in(x); O.in(A[1].s()); O.in(A[2].i()); O.in(A[3].i()); O.in(A[4].s()); O.in((long long) std::numeric_limits<e_float>::max_digits10); O.in((long long) std::numeric_limits<e_float>::digits10);
  std::ostringstream os; setup(os, A); os.width(A[3].i()); os.fill(A[4].s()[0]);
  const std::ios::fmtflags fl = os.flags();
  os << x;
  O.res(os.str());
  O.res(os.width() == 0 && os.flags() == fl && os.precision() == A[2].i() && os.fill() == A[4].s()[0] && os.good());
  const std::size_t n = os.str().size();
  os << x; // again: the width is spent
  O.res(os.str().substr(n));
}
// value, flags, precision: written, read back, written again
static Args B(Args a) { if(a[2].i() < 0) { a[2].v = std::to_string(std::numeric_limits<e_float>::max_digits10); } return a; }
OP("round")
{
  const Args C(B(A));
  const e_float x = A[0].ef(); O.in(x); O.in(A[1].s()); O.in(C[2].i()); O.in((long long) std::numeric_limits<e_float>::max_digits10);
  std::ostringstream os; setup(os, C); os << x;
  std::istringstream is(os.str()); e_float y; is >> y;
  std::ostringstream ot; setup(ot, C); ot << y;
  O.res(y); O.res(os.str()); O.res(ot.str());
}
OP("lit9p") { O.in(A[0].s()); O.in(A[1].s()); O.res(e_float(A[0].s())); O.res(e_float(A[1].s())); }
