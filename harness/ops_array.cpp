// Programs over four dynamic arrays (or four arrays of fixed size); the contents of all of them are recorded after every step.
// Elements own storage and are counted, allocations are counted.
#include "vh.h"
#include <utility/util_dynamic_array.h>
#include <e_float/detail/e_float_detail_dynamic_array.h>
using namespace vh;

static long live = 0, blocks = 0, wrong = 0;
struct El
{
  int* p;
  El() : p(new int(0)) { ++live; }
  El(int v) : p(new int(v)) { ++live; }
  El(const El& o) : p(new int(*o.p)) { ++live; }
  El& operator=(const El& o) { *p = *o.p; return *this; }
  ~El() { delete p; p = nullptr; --live; }
  operator int() const { return *p; }
};
inline bool operator==(const El& a, const El& b) { return *a.p == *b.p; }
inline bool operator<(const El& a, const El& b) { return *a.p < *b.p; }

template<typename T> struct Counted
{
  typedef T value_type;
  Counted() {}
  template<typename U> Counted(const Counted<U>&) {}
  static std::map<void*, std::size_t>& sizes() { static std::map<void*, std::size_t> m; return m; }
  T* allocate(std::size_t n) { T* p = static_cast<T*>(::operator new(n * sizeof(T))); sizes()[p] = n; ++blocks; return p; }
  void deallocate(T* p, std::size_t n)
  {
    if(p == nullptr) { if(n != 0) { ++wrong; } return; }
    auto it = sizes().find(p);
    if(it == sizes().end() || it->second != n) { ++wrong; return; }
    sizes().erase(it); --blocks; ::operator delete(p);
  }
  template<typename U> bool operator==(const Counted<U>&) const { return true; }
  template<typename U> bool operator!=(const Counted<U>&) const { return false; }
};

template<typename T> struct Dyn : util::dynamic_array<T, Counted<T>>
{
  typedef util::dynamic_array<T, Counted<T>> B;
  static B make(unsigned n, int v) { return n == 0 && v == 0 ? B() : (v == 0 ? B(typename B::size_type(n)) : B(typename B::size_type(n), T(v))); }
  static B list(unsigned n, int v) { switch(n) { case 0: return B(std::initializer_list<T>{}); case 1: return B({ T(v) }); case 2: return B({ T(v), T(v + 1) }); default: return B({ T(v), T(v + 1), T(v + 2) }); } }
  static B range(unsigned n, int v) { std::deque<T> d; for(unsigned k = 0; k < n; ++k) { d.push_back(T(v + (int) k)); } return B(d.begin(), d.end()); }
};
template<typename T, unsigned N> struct Fix
{
  typedef ef::detail::fixed_dynamic_array<T, N, Counted<T>> B;
  static B make(unsigned n, int v) { return n == N && v == 0 ? B() : (v == 0 ? B(typename B::size_type(n)) : B(typename B::size_type(n), T(v))); }
  static B list(unsigned n, int v) { switch(n) { case 0: return B(std::initializer_list<T>{}); case 1: return B({ T(v) }); case 2: return B({ T(v), T(v + 1) }); case 3: return B({ T(v), T(v + 1), T(v + 2) });
    default: return B({ T(v), T(v + 1), T(v + 2), T(v + 3), T(v + 4), T(v + 5), T(v + 6) }); } }
  static B range(unsigned n, int v) { return list(n, v); }
};

static std::vector<std::string> words(const std::string& s, char c)
{
  std::vector<std::string> r; std::size_t b = 0;
  for(;;) { std::size_t e = s.find(c, b); r.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if(e == std::string::npos) { break; } b = e + 1; }
  return r;
}
template<typename It> static std::string show(It f, It l) { std::string s = "["; for(It i = f; i != l; ++i) { s += (i == f ? "" : ",") + std::to_string((int) *i); } return s + "]"; }

template<typename K> static void run(const std::string& text, Out& O)
{
  typedef typename K::B B;
  live = 0; blocks = 0; wrong = 0;
  std::string prog = "[";
  {
    std::vector<B> a(4);
    for(int i = 0; i < 4; ++i) { a[i] = K::make((unsigned) i, i); }
    const std::vector<std::string> steps = words(text, ';');
    bool first = true;
    for(const std::string& st : steps)
    {
      const std::vector<std::string> w = words(st, ' ');
      const std::string c = w[0];
      const int i = std::atoi(w[1].c_str()), j = std::atoi(w[2].c_str()), v = std::atoi(w[4].c_str()); const unsigned n = (unsigned) std::atoi(w[3].c_str());
      prog += std::string(first ? "" : ",") + "[\"" + c + "\"," + w[1] + "," + w[2] + "," + w[3] + "," + w[4] + "]"; first = false;
      std::string x = "[]";
      const B& ci = a[i]; const B& cj = a[j];
      if     (c == "new") { a[i] = K::make(n, v); }
      else if(c == "lst") { a[i] = K::list(n, v); }
      else if(c == "rng") { a[i] = K::range(n, v); }
      else if(c == "cpc") { B t(cj); a[i] = std::move(t); }
      else if(c == "cpa") { a[i] = cj; }
      else if(c == "cpt") { const B t(cj); a[i] = t; }
      else if(c == "mva") { a[i] = std::move(a[j]); }
      else if(c == "mvc") { B t(std::move(a[j])); a[i] = std::move(t); }
      else if(c == "swm") { a[i].swap(a[j]); }
      else if(c == "swf") { swap(static_cast<typename B::dynamic_array&>(a[i]), static_cast<typename B::dynamic_array&>(a[j])); }
      else if(c == "swr") { a[i].swap(K::make(n, v)); }
      else if(c == "fil") { a[i].fill(v); }
      else if(c == "set") { a[i][n] = v; }
      else if(c == "sat") { a[i].at(n) = v; }
      else if(c == "sda") { a[i].data()[n] = v; }
      else if(c == "frt") { a[i].front() = v; }
      else if(c == "bck") { a[i].back() = v; }
      else if(c == "ite") { int k = v; for(auto& e : a[i]) { e = k++; } }
      else if(c == "rev") { int k = v; for(auto it = a[i].rbegin(); it != a[i].rend(); ++it) { *it = k++; } }
      else if(c == "cmp") { x = "["; x += (ci == cj ? "1" : "0"); x += (ci != cj ? ",1" : ",0"); x += (ci < cj ? ",1" : ",0"); x += (ci > cj ? ",1" : ",0"); x += (ci <= cj ? ",1" : ",0"); x += (ci >= cj ? ",1]" : ",0]"); }
      else if(c == "obs") { x = "[" + std::to_string((int) ci.front()) + "," + std::to_string((int) ci.back()) + "," + std::to_string((int) ci.at(n)) + "," + std::to_string((int) ci[n % ci.size()]) + "," + std::to_string(ci.size()) + "," + std::to_string(ci.max_size()) + "," + (ci.empty() ? "1" : "0") + "," + std::to_string((int) ci.data()[n % ci.size()]) + "]"; }
      else if(c == "rvs") { x = show(ci.rbegin(), ci.rend()); if(x != show(ci.crbegin(), ci.crend()) || x != show(a[i].rbegin(), a[i].rend()) || show(ci.begin(), ci.end()) != show(ci.cbegin(), ci.cend())) { x = "[-1]"; } }
      std::string s = "[" + x;
      for(const B& b : a)
      {
        std::string e = "["; const unsigned z = (unsigned) b.size();
        for(unsigned k = 0; k < z; ++k) { e += (k ? "," : "") + std::to_string((int) b[k]); }
        e += "]";
        if(e != show(b.begin(), b.end())) { e = "[-1]"; }
        s += "," + e;
      }
      O.r.push_back(s + "]");
    }
  }
  prog += "]";
  O.a.push_back(prog);
  O.r.push_back("[" + std::to_string(live) + "," + std::to_string(blocks) + "," + std::to_string(wrong) + "]");
}
OP("arrel") { run<Dyn<El>>(A[0].s(), O); }
OP("arru") { run<Dyn<unsigned>>(A[0].s(), O); }
OP("arrd") { run<Dyn<double>>(A[0].s(), O); }
OP("fixel") { run<Fix<El, 5>>(A[0].s(), O); }
OP("fixu") { run<Fix<unsigned, 5>>(A[0].s(), O); }
OP("fix1") { run<Fix<unsigned, 1>>(A[0].s(), O); }
