// reads lines:  <id> TAB <op> TAB <t:arg> TAB ...      (strings percent-encoded)
// writes lines: {"id":..,"op":..,"be":..,"a":[operands],"r":[results]}
#include "vh.h"
#include <fstream>
#include <iostream>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
#include <sys/resource.h>

static std::string undo(const std::string& s)
{
  std::string r;
  for(std::size_t i = 0; i < s.size(); ++i)
  {
    if(s[i] == '%' && i + 2 < s.size()) { r.push_back((char) std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16)); i += 2; }
    else { r.push_back(s[i]); }
  }
  return r;
}
static char last_line[64];
static void on_sig(int sig)
{
  const char* m = (sig == SIGVTALRM || sig == SIGALRM) ? "\nHARNESS-TIMEOUT " : "\nHARNESS-SIGNAL ";
  (void) !write(2, m, std::strlen(m)); (void) !write(2, last_line, std::strlen(last_line)); (void) !write(2, "\n", 1);
  _exit(77);
}
static void arm(int seconds)
{
  itimerval t; t.it_interval.tv_sec = 0; t.it_interval.tv_usec = 0; t.it_value.tv_sec = seconds; t.it_value.tv_usec = 0;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

int main(int argc, char** argv)
{
  if(argc < 3) { std::fprintf(stderr, "usage: %s IN OUT [from [step [first]]]\n", argv[0]); return 2; }
  for(int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGVTALRM }) { std::signal(s, on_sig); }
  const long from = argc > 3 ? std::atol(argv[3]) : 0, step = argc > 4 ? std::atol(argv[4]) : 1, first = argc > 5 ? std::atol(argv[5]) : 0;
  const char* lim = std::getenv("VERIF_OPLIMIT"); const int limit = lim ? std::atoi(lim) : 20;
  const char* mem = std::getenv("VERIF_MEM"); if(mem) { rlimit r; r.rlim_cur = r.rlim_max = (rlim_t) std::atol(mem) << 20; setrlimit(RLIMIT_AS, &r); }
  std::ifstream in(argv[1]);
  std::FILE* out = std::fopen(argv[2], "a");
  if(!in || !out) { return 2; }
  std::string line; long n = -1;
  while(std::getline(in, line))
  {
    ++n; if(n < first || line.empty() || (n % step) != from) { continue; }
    std::snprintf(last_line, sizeof last_line, "%ld", n);
    std::vector<std::string> tok; std::size_t b = 0;
    for(;;) { std::size_t e = line.find('\t', b); tok.push_back(line.substr(b, e == std::string::npos ? e : e - b)); if(e == std::string::npos) { break; } b = e + 1; }
    vh::Args A;
    for(std::size_t i = 2; i < tok.size(); ++i) { A.push_back(vh::Arg{ tok[i][0], undo(tok[i].substr(2)) }); }
    const std::size_t at = tok.size() > 1 ? tok[1].find('@') : std::string::npos; // op@backend: for that back end only
    if(at != std::string::npos) { if(tok[1].substr(at + 1) != vh::backend) { continue; } tok[1].resize(at); }
    const auto it = vh::registry().find(tok.size() > 1 ? tok[1] : "");
    if(it == vh::registry().end()) { std::fprintf(stderr, "unknown op: %s\n", line.c_str()); return 3; }
    vh::Out O;
    arm(limit);
    std::string err;
    try { it->second(A, O); } catch(const std::exception& e) { err = std::string("exception ") + e.what(); } catch(...) { err = "exception"; }
    arm(0);
    std::string s = "{\"id\":\"" + tok[0] + "\",\"op\":\"" + tok[1] + "\",\"be\":\"" + vh::backend + "\",\"x\":\"" + vh::esc(err) + "\",\"a\":[";
    for(std::size_t i = 0; i < O.a.size(); ++i) { s += (i ? "," : "") + O.a[i]; }
    s += "],\"r\":[";
    for(std::size_t i = 0; i < O.r.size(); ++i) { s += (i ? "," : "") + O.r[i]; }
    s += "]}\n";
    std::fwrite(s.data(), 1, s.size(), out); std::fflush(out);
  }
  std::fclose(out);
  return 0;
}
