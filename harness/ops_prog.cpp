// Programs over four variables: the whole state is recorded after every step.
#include "vh.h"
using namespace vh;

// one step:  <code> <i> [<j> [<k>]] [<text>]      steps separated by ';'
static std::vector<std::string> words(const std::string& s, char c)
{
  std::vector<std::string> r; std::size_t b = 0;
  for(;;) { std::size_t e = s.find(c, b); r.push_back(s.substr(b, e == std::string::npos ? e : e - b)); if(e == std::string::npos) { break; } b = e + 1; }
  return r;
}

OP("prog")
{
  constexpr int NR = 4;
  e_float r[NR];
  bool known[NR] = { true, true, true, true };
  const std::vector<std::string> steps = words(A[0].s(), ';');
  auto snap = [&](const std::string& extra)
  {
    std::string s = "[";
    for(int i = 0; i < NR; ++i) { s += (i ? "," : "") + (known[i] ? J(static_cast<const e_float&>(r[i])) : std::string("{\"k\":\"u\"}")); }
    return s + (extra.empty() ? ",{\"k\":\"-\"}" : "," + extra) + "]";
  };
  std::string prog = "[";
  O.r.push_back(snap(""));
  for(std::size_t n = 0; n < steps.size(); ++n)
  {
    const std::vector<std::string> w = words(steps[n], ' ');
    const std::string& c = w[0];
    auto R = [&](std::size_t p) -> int { return p < w.size() ? std::atoi(w[p].c_str()) : 0; };
    auto T = [&](std::size_t p) { Arg a; a.t = 'e'; a.v = w[p]; return a.ef(); };
    const int i = R(1), j = R(2), k = R(3);
    std::string extra;
    if     (c == "lit")   { r[i] = T(2); }
    else if(c == "cpy")   { r[i] = r[j]; }
    else if(c == "cpc")   { const e_float t(r[j]); r[i] = t; }
    else if(c == "mov")   { r[i] = std::move(r[j]); }
    else if(c == "mvc")   { e_float t(std::move(r[j])); r[i] = t; }
    else if(c == "swp")   { std::swap(r[i], r[j]); }
    else if(c == "sws")   { r[i].swap(r[j]); }
    else if(c == "ade")   { r[i] += r[j]; }
    else if(c == "sue")   { r[i] -= r[j]; }
    else if(c == "mue")   { r[i] *= r[j]; }
    else if(c == "die")   { r[i] /= r[j]; }
    else if(c == "add")   { r[i] = r[j] + r[k]; }
    else if(c == "sub")   { r[i] = r[j] - r[k]; }
    else if(c == "mul")   { r[i] = r[j] * r[k]; }
    else if(c == "div")   { r[i] = r[j] / r[k]; }
    else if(c == "inc")   { ++r[i]; }
    else if(c == "dec")   { --r[i]; }
    else if(c == "pin")   { extra = J(e_float(r[i]++)); }
    else if(c == "pde")   { extra = J(e_float(r[i]--)); }
    else if(c == "neg")   { r[i] = -r[j]; }
    else if(c == "ngt")   { r[i].negate(); }
    else if(c == "abs")   { r[i] = ef::fabs(r[j]); }
    else if(c == "sqt")   { r[i].calculate_sqrt(); }
    else if(c == "inv")   { r[i].calculate_inv(); }
    else if(c == "sqf")   { r[i] = ef::sqrt(r[j]); }
    else if(c == "nad")   { r[i] += static_cast<long long>(std::strtoll(w[2].c_str(), nullptr, 10)); }
    else if(c == "nsu")   { r[i] -= static_cast<long long>(std::strtoll(w[2].c_str(), nullptr, 10)); }
    else if(c == "nmu")   { r[i] *= static_cast<long long>(std::strtoll(w[2].c_str(), nullptr, 10)); }
    else if(c == "ndi")   { r[i] /= static_cast<long long>(std::strtoll(w[2].c_str(), nullptr, 10)); }
    else if(c == "prc")   { r[i].precision(R(2)); }
    else if(c == "get")   { std::istringstream is(w[2]); is >> r[i]; }
    else if(c == "cmp")   { extra = J(r[i].compare(r[j])); }
    else if(c == "rel")   { extra = J(std::string() + (r[i] < r[j] ? '1' : '0') + (r[i] <= r[j] ? '1' : '0') + (r[i] == r[j] ? '1' : '0') + (r[i] != r[j] ? '1' : '0') + (r[i] >= r[j] ? '1' : '0') + (r[i] > r[j] ? '1' : '0')); }
    else if(c == "ini")   { e_float t(r[j]); t += r[k]; t *= t; t.negate(); }           // a scratch copy: nothing changes
    else { throw std::runtime_error("unknown step"); }
    if(c == "mov") { if(i != j) { known[i] = true; known[j] = false; } }
    else if(c == "mvc") { known[j] = false; known[i] = true; }
    else if(c == "lit" || c == "cpy" || c == "cpc") { known[i] = true; }
    else if(c == "add" || c == "sub" || c == "mul" || c == "div" || c == "neg" || c == "abs" || c == "sqf") { known[i] = true; }
    prog += (n ? "," : "") + std::string("[\"") + c + "\"," + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(k) + ",\"" + esc(w.size() > 2 ? w[2] : "") + "\"]";
    O.r.push_back(snap(extra));
  }
  O.a.push_back(prog + "]");
}
