------------------------------- MODULE GenC09 -------------------------------
EXTENDS GenBase
(* Decimal literals: sign, leading zeros, decimal point at any position,   *)
(* trailing zeros, exponent with sign and leading zeros; and the previous  *)
(* contents of the object they are read into.                              *)
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE IF n >= 16 THEN "0000000000000000" \o Zeros(n - 16) ELSE "0" \o Zeros(n - 1)
N == IF Thorough THEN 60000 ELSE 9000
NumZ(h) == LET c == Hash(h, 1) %% 6 IN CASE c \preceq 2 -> 0 [] c = 3 -> 1 + (Hash(h, 2) %% 3) [] c = 4 -> Hash(h, 2) %% 20 [] c = 5 -> Hash(h, 2) %% 140
\* a mantissa of digits
Digits(h) ==
  LET c == Hash(h, 1) %% 6
      n == 1 + (Hash(h, 2) %% 17)
      m == Mant(Hash(h, 3) %% 8, n, Hash(h, 4))
  IN CASE c = 0 -> Str(1 + (Hash(h, 5) %% 1000))
       [] c = 1 -> Str(Mant(4, 1 + (Hash(h, 6) %% 70), Hash(h, 7)))        \* far more digits than can be held
       [] c = 2 -> IF (Hash(h, 8) %% 4) \doteq 0 THEN "0" ELSE Str(m)
       [] OTHER -> Str(m)
ExpTxt(h) ==
  LET c == Hash(h, 1) %% 8
      E == IF (Hash(h, 2) %% 2) \doteq 0 THEN "e" ELSE "E"
      s == PickSeq(Hash(h, 3), <<"", "+", "-">>)
      z == IF (Hash(h, 4) %% 3) \doteq 0 THEN Zeros(Hash(h, 5) %% 12) ELSE ""
      n == CASE c \preceq 3 -> Hash(h, 6) %% 30 [] c = 4 -> Hash(h, 6) %% 400 [] OTHER -> Hash(h, 6) %% 300000000
  IN IF c \preceq 1 THEN "" ELSE E \o s \o z \o Str(n)
Lit(h) ==
  LET ds == Zeros(NumZ(Hash(h, 1))) \o Digits(Hash(h, 2)) \o Zeros(NumZ(Hash(h, 3)))
      L  == Len(ds)
      c  == Hash(h, 4) %% 8
      p  == CASE c \preceq 1 -> -1 [] c = 2 -> 0 [] c = 3 -> L [] c = 4 -> BMin(L, 1) [] c = 5 -> BMin(L, (Hash(h, 5) %% 9)) [] c = 6 -> BMax(0, L -- (Hash(h, 5) %% 9)) [] OTHER -> Hash(h, 5) %% (L + 1)
      body == IF p = -1 THEN ds ELSE SubSeq(ds, 1, p) \o "." \o SubSeq(ds, p + 1, L)
  IN PickSeq(Hash(h, 6), <<"", "", "-", "-", "+">>) \o body \o ExpTxt(Hash(h, 7))
\* two spellings of one number: shift the decimal point by k and the exponent by -k
Pair(h) ==
  LET ds == Digits(Hash(h, 2))
      L == Len(ds)
      k == Hash(h, 5) %% (L + 12)
      e == (Hash(h, 6) %% 2001) -- 1000
      neg == IF (Hash(h, 7) %% 2) \doteq 0 THEN "-" ELSE ""
      shifted == IF k <= L THEN SubSeq(ds, 1, L - k) \o "." \o SubSeq(ds, L - k + 1, L) ELSE "0." \o Zeros(k - L) \o ds
  IN <<neg \o ds \o "e" \o Str(e), neg \o shifted \o "e" \o Str(e ++ k)>>
Prev(h) == PickSeq(h, <<"nan", "inf", "-inf", "0", "-1.5", "max", "-max", "3.1415926535897932384626433832795028841971693993751058209749445923078164062862089986280348253421170679821480865132823", "-1e100", "min", "0.1">>)
Case(i) == LET h == Hash(Seed, i) IN
  IF i % 5 = 0 THEN LET q == Pair(h) IN CaseLine("P", i, "lit9p") \o SArg(q[1]) \o SArg(q[2])
  ELSE CaseLine("L", i, "lit9") \o SArg(Lit(h)) \o EArg(Prev(Hash(h, 99)))
Corner == <<"0", "-0", "+0", "0.", ".0", "00.00", "0e5", "-0.0E-7", ".5", "5.", "-.5e1", "+5.E-1", "000000000000000000000000000001", ".00000000000000000000000000001", "1e0", "1E-0", "1e+00000000000000000005",
            "99999999.99999999", "100000000.00000001", "0.99999999", "9.9999999e7", "1.00000000e8", "0.00000001", "12345678.9", "123456789.0", "1234567890123456.7", "-00012.500e-03">>
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..(N + Len(Corner)) |-> IF i <= N THEN Case(i) ELSE CaseLine("C", i, "lit9") \o SArg(Corner[i - N]) \o EArg("-7")])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
