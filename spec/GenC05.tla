------------------------------- MODULE GenC05 -------------------------------
EXTENDS GenBase
(* Operands whose exact result lies near or beyond an end of the exponent  *)
(* range.  T: target exponent of the result.                               *)
Ends(be) == CASE be = "efx" -> <<Dec("2147483617"), Dec("-2147483616")>>
              [] be = "gmp" -> <<646392568, -646392568>>
              [] be = "mpfr" -> <<323196288, -323196288>>
\* a distance from the end: mostly a few digits or limbs, sometimes far beyond
Off(h) == LET c == Hash(h, 1) %% 5 IN
   IF c \preceq 1 THEN (Hash(h, 2) %% 7) -- 3 ELSE IF c = 2 THEN (Hash(h, 2) %% 41) -- 20 ELSE IF c = 3 THEN (Hash(h, 2) %% 601) -- 300 ELSE (Hash(h, 2) %% 400000001) -- 200000000
\* a mantissa of n limbs as a number in [1, 10): digits and the exponent that makes it so
Nrm(neg, st, n, h, e) == LET m == Mant(st, n, h) IN Txt(neg, m, e ++ 1 -- NDig(m))
N == IF Thorough THEN 90000 ELSE 15000
Case(i) ==
  LET h == Hash(Seed, i)
      be == <<"efx", "gmp", "mpfr">>[1 + (i % 3)]
      ends == Ends(be)
      hi == (Hash(h, 1) %% 2) \doteq 0
      t == (IF hi THEN ends[1] ELSE ends[2]) ++ Off(Hash(h, 2)) -- (Hash(h, 3) %% 2)     \* exponent of the result
      c == (i \div 3) % 8
      \* split t = e1 + e2 with both in range
      b == ends[1] -- 1
      e0 == LET q == Hash(h, 4) %% 4 IN IF q = 0 THEN t // 2 ELSE IF q = 1 THEN t -- (Hash(h, 5) %% 200) ELSE IF q = 2 THEN (t // 2) ++ (Hash(h, 5) %% 100000) ELSE t -- 16
      lim(e) == BMax(0 -- b, BMin(b, e))
      e1 == lim(e0)
      e2 == lim(t -- e1)
      sg(k) == Hash(h, 20 + k) %% 2
      st(k) == Hash(h, 30 + k) %% 8
      n(k) == 1 + (Hash(h, 40 + k) %% 16)
  IN CASE c \in {0, 1} -> CaseLine("M", i, (IF c = 0 THEN "mul@" ELSE "muleq@") \o be) \o EArg(Nrm(sg(1), st(1), n(1), Hash(h, 51), e1)) \o EArg(Nrm(sg(2), st(2), n(2), Hash(h, 52), e2))
       [] c \in {2, 3} -> CaseLine("D", i, (IF c = 2 THEN "div@" ELSE "diveq@") \o be) \o EArg(Nrm(sg(1), st(1), n(1), Hash(h, 51), e1)) \o EArg(Nrm(sg(2), st(2), n(2), Hash(h, 52), 0 -- e2))
       [] c = 4 -> CaseLine("A", i, PickSeq(Hash(h, 6), <<"add@", "sub@", "addeq@", "subeq@">>) \o be) \o EArg(Nrm(sg(1), st(1), n(1), Hash(h, 51), BMin(b, BMax(0 -- b, t))))
                     \o EArg(Nrm(sg(2), st(2), n(2), Hash(h, 52), BMin(b, BMax(0 -- b, t ++ PickSeq(Hash(h, 7), <<0, 0, 1, -1, -7, -8, 8, -100, -120>>)))))
       [] c = 5 -> CaseLine("L", i, "lit@" \o be) \o LET m == Mant(st(1), n(1), Hash(h, 51)) IN Tab \o "s:" \o Txt(sg(1), m, t ++ 1 -- NDig(m)) \o SArg(IF (Hash(h, 8) %% 3) \doteq 0 THEN "big" ELSE "std")
       [] c = 6 -> CaseLine("I", i, PickSeq(Hash(h, 6), <<"inv@", "selfmul@", "selfadd@">>) \o be) \o EArg(Nrm(sg(1), st(1), n(1), Hash(h, 51), lim(IF (Hash(h, 9) %% 2) \doteq 0 THEN 0 -- t ELSE t // 2)))
       [] c = 7 -> CaseLine("F", i, PickSeq(Hash(h, 6), <<"add@", "sub@", "mul@", "div@">>) \o be) \o EArg(PickSeq(Hash(h, 10), <<"max", "-max", "min", "-min">>))
                     \o EArg(IF (Hash(h, 11) %% 2) \doteq 0 THEN PickSeq(Hash(h, 12), <<"max", "-max", "min", "-min", "1", "-1", "10", "0.1", "0.9999999999", "1.0000000001", "1e100", "-1e-100">>)
                             ELSE Nrm(sg(2), st(2), n(2), Hash(h, 52), PickSeq(Hash(h, 13), <<0, 1, -1, t>>)))
\* literals with absurd exponents
Absurd == <<"1e2147483647", "1e-2147483648", "1e2147483648", "-1e99999999999", "1e-99999999999", "1e9223372036854775807", "1e-9223372036854775808", "1e9223372036854775808", "-1e-9223372036854775809",
            "5e18446744073709551616", "-3e-18446744073709551617", "1e99999999999999999999999999", "-2e-99999999999999999999999999", "0e99999999999", "0e-99999999999", "-0.0e99999999999999999999999",
            "0.0001e99999999999", "123456789e-99999999999999999999", "1E+4294967296", "1E-4294967297">>
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(N + Len(Absurd)) |-> IF i <= N THEN Case(i) ELSE CaseLine("X", i, "lit") \o SArg(Absurd[i - N]) \o SArg("absurd")])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
