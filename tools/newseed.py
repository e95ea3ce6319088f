#!/usr/bin/env python3
"""newseed.py FILE...   FILE: python dict with name, property, be (list), file, edits [(old,new)], demo (C++ body of main), needs, what.
Makes the scratch copy /tmp/sw/<name> with the edits and seeded/<name>/ (demo.sh, demo.cpp, meta.json)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the library behaves
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp /tmp/demoXXXXXX)
trap 'rm -f "$t"' EXIT
rc=0
for be in %s; do
  case $be in efx) D=E_FLOAT_TYPE_EFX L= ;; gmp) D=E_FLOAT_TYPE_GMP L=-lgmp ;; mpfr) D=E_FLOAT_TYPE_MPFR L="-lmpfr -lgmp" ;; esac
  g++ -std=c++14 -w -O1 -D$D -DE_FLOAT_TEST_REAL_IMAG_TESTS -Ilibs/e_float/src -Ilibs/math/include "$here/demo.cpp" $(ls _build/$be-real/obj/*.o | grep -v '/test') -o "$t" $L || exit 3
  timeout 100 "$t" || { echo "$be: wrong"; rc=1; }
done
exit $rc
'''
CPP = '''#include <iostream>
#include <sstream>
#include <iomanip>
#include <limits>
#include <vector>
#include <string>
%s
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
static int bad = 0;
static void check(bool ok, const char* what) { if(!ok) { std::cout << "wrong: " << what << std::endl; bad = 1; } }
#define CHECK(c) check((c), #c)
int main()
{
%s
  return bad;
}
'''
def main():
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        for s in ns["SEEDS"]:
            n = s["name"]; w = "/tmp/sw/" + n; d = V + "/seeded/" + n
            if not os.path.exists(w): subprocess.run(["cp", "-a", "/repo", w], check=True)
            subprocess.run(["git", "-C", w, "checkout", "-q", "--", "."], check=True)
            subprocess.run(["git", "-C", w, "fetch", "-q", "/repo", "HEAD"], check=True)
            subprocess.run(["git", "-C", w, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
            for (p, a, b) in s["edits"]:
                p = w + "/libs/e_float/src/" + p
                t = open(p).read(); k = t.count(a)
                if k != 1: print(n, p, "occurrences:", k); sys.exit(1)
                open(p, "w").write(t.replace(a, b))
            os.makedirs(d, exist_ok=True)
            open(d + "/demo.sh", "w").write(SH % " ".join(s.get("be", ["efx"])))
            open(d + "/demo.cpp", "w").write(CPP % (s.get("inc", ""), s["demo"]))
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(d + "/meta.json", "w"), indent=1)
            print(n, "ready")
main()
