------------------------------- MODULE GenC12 -------------------------------
EXTENDS GenBase
(* Values next to integers, with integer and fractional limbs at every     *)
(* position; powers of two; dividends and divisors of every size ratio.    *)
N == IF Thorough THEN 60000 ELSE 12000
\* an integer of k digits plus or minus a fraction of t digits
NearI(h) ==
  LET k == Hash(h, 1) %% 130
      t == 1 + (Hash(h, 2) %% 60)
      i == CASE (Hash(h, 3) %% 4) \doteq 0 -> P10(k) [] (Hash(h, 3) %% 4) \doteq 1 -> P10(k) -- 1 [] (Hash(h, 3) %% 4) \doteq 2 -> Hash(h, 4) %% P10(BMin(k, 30)) [] OTHER -> Mant(4, 1 + (k \div 8), Hash(h, 5))
      f == CASE (Hash(h, 6) %% 5) \doteq 0 -> 0 [] (Hash(h, 6) %% 5) \doteq 1 -> 1 [] (Hash(h, 6) %% 5) \doteq 2 -> P10(t) -- 1 [] (Hash(h, 6) %% 5) \doteq 3 -> -1 [] OTHER -> Hash(h, 7) %% P10(t)
  IN Txt(Hash(h, 8) %% 2, (i ** P10(t)) ++ f, 0 - t)
X(h) == LET c == Hash(h, 1) %% 4 IN IF c \preceq 1 THEN NearI(Hash(h, 2)) ELSE IF c = 2 THEN Sized(Hash(h, 3), 1 + (Hash(h, 4) %% 17), -20, 160) ELSE AnyOp(Hash(h, 5), 17)
Pow(h) == LET c == Hash(h, 1) %% 4 IN CASE c = 0 -> (Hash(h, 2) %% 20) -- 10 [] c = 1 -> (Hash(h, 2) %% 2001) -- 1000 [] c = 2 -> (Hash(h, 2) %% 200001) -- 100000 [] OTHER -> (Hash(h, 2) %% 101) -- 50
\* values whose power of two fits an int
Y(h) == LET c == Hash(h, 1) %% 5 IN IF c = 0 THEN Sized(Hash(h, 2), 1 + (Hash(h, 3) %% 17), -300, 300) ELSE IF c = 1 THEN Sized(Hash(h, 2), 1 + (Hash(h, 3) %% 17), -300000000, 300000000)
        ELSE IF c = 2 THEN Txt(Hash(h, 4) %% 2, 2 ^^ (Hash(h, 5) %% 400), 0) ELSE IF c = 3 THEN PickSeq(Hash(h, 6), <<"0", "1", "-1", "2", "-0.5", "0.25", "3", "10", "0.1", "99999999">>) ELSE Operand(Hash(h, 7), 15)
\* dividend and divisor, quotient below 10^95
Mods(h) ==
  LET d == (Hash(h, 1) %% 3)
      m2 == IF d = 0 THEN 1 ++ (Hash(h, 2) %% 1000) ELSE Mant(Hash(h, 3) %% 8, 1 + (Hash(h, 4) %% 13), Hash(h, 5))
      e2 == (Hash(h, 6) %% 61) -- 30
      q == CASE (Hash(h, 7) %% 4) \doteq 0 -> 0 [] (Hash(h, 7) %% 4) \doteq 1 -> Hash(h, 8) %% 100 [] (Hash(h, 7) %% 4) \doteq 2 -> Hash(h, 8) %% P10(Hash(h, 9) %% 90) [] OTHER -> P10(Hash(h, 9) %% 90)
      r == CASE (Hash(h, 10) %% 4) \doteq 0 -> 0 [] (Hash(h, 10) %% 4) \doteq 1 -> 1 [] (Hash(h, 10) %% 4) \doteq 2 -> m2 -- 1 [] OTHER -> Hash(h, 11) %% m2
      m1 == (q ** m2) ++ r
  IN <<IF m1 \doteq 0 THEN "0" ELSE Txt(Hash(h, 12) %% 2, m1, e2), Txt(Hash(h, 13) %% 2, m2, e2)>>
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 8
  IN CASE c \preceq 3 -> CaseLine("I", i, "ints") \o EArg(X(h))
       [] c = 4 -> CaseLine("L", i, "ldexp") \o EArg(Y(h)) \o IArg(Pow(Hash(h, 50)))
       [] c = 5 -> CaseLine("F", i, "frexp") \o EArg(Y(h))
       [] OTHER -> LET m == Mods(h) IN CaseLine("M", i, "fmod") \o EArg(m[1]) \o EArg(m[2])
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
