------------------------------- MODULE GenC03 -------------------------------
EXTENDS GenBase
(* Numerators and denominators.  A: style pairs x lengths.  B: denominators *)
(* next to powers of ten and with extreme leading digits, reciprocals.      *)
(* C: x/x, x/1, (a b)/a.  D: extreme exponents.                             *)
NA == IF Thorough THEN 60000 ELSE 8192
CaseA(i) ==
  LET h == Hash(Seed, i)
      s1 == i % 8
      s2 == (i \div 8) % 8
      n1 == 1 + ((i \div 64) % 16)
      n2 == 1 + (Hash(h, 1) %% 16)
  IN CaseLine("A", i, PickSeq(Hash(h, 8), <<"div", "div", "diveq">>)) \o EArg(Txt(Hash(h, 6) %% 2, Mant(s1, n1, Hash(h, 2)), PickSeq(Hash(h, 4), Exps)))
                             \o EArg(Txt(Hash(h, 7) %% 2, Mant(s2, n2, Hash(h, 3)), PickSeq(Hash(h, 5), Exps)))
\* denominators d * 10^k + delta
NB == IF Thorough THEN 60000 ELSE 8000
CaseB(i) ==
  LET h == Hash(Seed, 1000000 + i)
      k == (i % 129)
      d == PickSeq(Hash(h, 1), <<1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 16, 99, 12345678, 99999999, 10000001>>)
      dl == PickSeq(Hash(h, 2), <<0, 1, -1, 7, 1, -1>>) ** P10(Hash(h, 3) %% (k + 1))
      y == (d ** P10(k)) ++ dl
      e == IF (Hash(h, 9) %% 3) \doteq 0 THEN 0 -- k ELSE (Hash(h, 5) %% 300) -- 150 -- k
      t == Txt(Hash(h, 4) %% 2, IF y \doteq 0 THEN 1 ELSE y, e)
  IN IF i % 2 = 0 THEN CaseLine("B", i, PickSeq(Hash(h, 6), <<"inv", "invf">>)) \o EArg(t)
     ELSE CaseLine("B", i, "div") \o EArg(Operand(Hash(h, 7), 16)) \o EArg(t)
NC == IF Thorough THEN 40000 ELSE 6000
CaseC(i) ==
  LET h == Hash(Seed, 2000000 + i)
      c == i % 4
      x == Operand(Hash(h, 1), 16)
  IN CASE c = 0 -> CaseLine("C", i, "selfdiv") \o EArg(x)
       [] c = 1 -> CaseLine("C", i, "div") \o EArg(x) \o EArg(x)
       [] c = 2 -> CaseLine("C", i, "div") \o EArg(x) \o EArg(PickSeq(Hash(h, 2), <<"1", "-1", "1.0e0", "10", "1e-5">>))
       [] c = 3 -> LET n1 == 1 + (Hash(h, 1) %% 11)
                       a == Mant(Hash(h, 3) %% 8, n1, Hash(h, 4))
                       b == Mant(Hash(h, 5) %% 8, 12 - n1, Hash(h, 6))
                   IN CaseLine("C", i, "divq") \o EArg(Txt(Hash(h, 7) %% 2, a ** b, 0)) \o EArg(Txt(Hash(h, 8) %% 2, a, 0))
\* exponents over the whole range of each back end
ND == IF Thorough THEN 9000 ELSE 3000
CaseD(i) ==
  LET h == Hash(Seed, 3000000 + i)
      be == <<"efx", "gmp", "mpfr">>[1 + (i % 3)]
      m == <<Dec("2147483400"), Dec("646392000"), Dec("323196000")>>[1 + (i % 3)]
      ex(k) == LET c == Hash(h, k) %% 4 IN
               IF c = 0 THEN (Hash(h, k + 1) %% ((2 ** m) ++ 1)) -- m ELSE IF c = 1 THEN m -- (Hash(h, k + 1) %% 300)
               ELSE IF c = 2 THEN (Hash(h, k + 1) %% 300) -- m ELSE (Hash(h, k + 1) %% 600) -- 300
  IN IF (Hash(h, 5) %% 2) \doteq 0 THEN CaseLine("D", i, "inv@" \o be) \o EArg(Txt(Hash(h, 6) %% 2, Mant(Hash(h, 7) %% 8, 3, Hash(h, 8)), ex(10)))
     ELSE CaseLine("D", i, "div@" \o be) \o EArg(Txt(Hash(h, 6) %% 2, Mant(Hash(h, 7) %% 8, 3, Hash(h, 8)), ex(10)))
             \o EArg(Txt(Hash(h, 6) %% 2, Mant(Hash(h, 9) %% 8, 5, Hash(h, 10)), ex(12)))
ASSUME EmitLines(IOEnv.VERIF_CASES,
   [i \in 1..(NA + NB + NC + ND) |-> IF i <= NA THEN CaseA(i) ELSE IF i <= NA + NB THEN CaseB(i) ELSE IF i <= NA + NB + NC THEN CaseC(i) ELSE CaseD(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
