------------------------------- MODULE GenC15 -------------------------------
(* Operands that fill the whole mantissa: all nines (the largest convolution *)
(* sums), alternating and single limbs, sparse and random limbs; precisions  *)
(* on both sides of the switch between the algorithms and of every power of  *)
(* two of the transform length.                                              *)
EXTENDS GenBase, Config
NL == (CfgDigits // 8) ++ 3
N == IF CfgDigits > 500000 THEN 6 ELSE IF CfgDigits > 50000 THEN (IF Thorough THEN 60 ELSE 12) ELSE IF Thorough THEN 1500 ELSE 400
RECURSIVE RepD(_, _, _)
\* a string of n copies of the w-digit block b, by doubling
RepD(b, w, n) == IF n = 0 THEN 0 ELSE IF n = 1 THEN b
  ELSE LET h == RepD(b, w, n \div 2)
           d == (h ** P10(w * (n \div 2))) ++ h
       IN IF n % 2 = 0 THEN d ELSE (d ** P10(w)) ++ b
\* pseudo-random limbs: a random block of 40 limbs, squared up with shifts
Rnd(h, n) == LET b == Limbs(40, h, 1) IN (RepD(b, 331, 1 + ((8 * n) \div 331)) ** (1 ++ (Hash(h, 77) %% 1000007))) %% P10(8 * n)
Rnd2(h, n) == IF n > 5000 THEN Rnd(h, n) ELSE 1 ++ ((Rnd(h, n) ** Rnd(Hash(h, 5), (n \div 2) + 1)) %% P10(8 * n))
Blocks == <<99999999, 99990000, 9999, 10000, 5000, 50005000, 50000000, 1, 99999998, 90009, 10001, 49999999>>
BigMant(h, n) ==
  LET c == Hash(h, 1) %% 8
  IN CASE c \preceq 1 -> P10(8 * n) -- 1
       [] c = 2 -> RepD(PickSeq(Hash(h, 2), Blocks), 8, n)
       [] c = 3 -> RepD(1 ++ (Hash(h, 3) %% P10(16)), 16, (n \div 2) + 1)
       [] c = 4 -> P10(8 * (n - 1)) ++ (Hash(h, 4) %% P10(20))
       [] c = 5 -> (P10(8 * n) -- 1) -- (RepD(1, 40, n \div 5) ** (Hash(h, 5) %% 99999))
       [] OTHER -> 1 ++ Rnd2(Hash(h, 6), n)
\* lead with 1..8 digits in the first limb
Big(h) ==
  LET n == CASE (Hash(h, 10) %% 4) \doteq 0 -> NL [] (Hash(h, 10) %% 4) \doteq 1 -> (NL \div 2) -- 2 [] OTHER -> NL -- (Hash(h, 11) %% 4)
      z == Hash(h, 12) %% 8
      m == BigMant(Hash(h, 13), n)
  IN Txt(Hash(h, 14) %% 2, m // P10(z), ((Hash(h, 15) %% 41) -- 20) -- (8 * n))
PosBig(h) == LET t == Big(h) IN IF SubSeq(t, 1, 1) = "-" THEN SubSeq(t, 2, Len(t)) ELSE t
\* precision in digits: the algorithm changes at 5000 digits, the transform length at powers of two of limbs
Around(x, h) == BMax(1, x ++ ((Hash(h, 1) %% 41) -- 20))
Prec(h) == LET c == Hash(h, 1) %% 6
           IN IF c \preceq 2 THEN 0 ELSE IF c = 3 THEN Around(4970, Hash(h, 2)) ELSE IF c = 4 THEN Around((8 ** (2 ^^ (Hash(h, 3) %% 14))) -- 24, Hash(h, 4)) ELSE 1 ++ (Hash(h, 5) %% CfgDigits)
\* the largest configuration: a few full-length products only
Case(i) ==
  LET h == Hash(Seed, i)
      c == i % 8
      line == CASE c \in {0, 1, 2} -> CaseLine("M", i, "mulp") \o EArg(Big(Hash(h, 1))) \o EArg(Big(Hash(h, 2))) \o IArg(Prec(Hash(h, 3)))
                [] c \in {3, 4} -> CaseLine("S", i, "sqrp") \o EArg(Big(Hash(h, 1))) \o IArg(Prec(Hash(h, 3)))
                [] c = 5 -> CaseLine("D", i, "divp") \o EArg(Big(Hash(h, 1))) \o EArg(Big(Hash(h, 2))) \o IArg(Prec(Hash(h, 3)))
                [] c = 6 -> CaseLine("I", i, "invp") \o EArg(Big(Hash(h, 1))) \o IArg(Prec(Hash(h, 3)))
                [] c = 7 -> CaseLine("Q", i, "sqtp") \o EArg(PosBig(Hash(h, 1))) \o IArg(Prec(Hash(h, 3)))
      nines == Txt(0, P10(8 * NL) -- 1, -3)
  IN IF CfgDigits > 500000
     THEN (IF i \in {1, 2} THEN CaseLine("S", i, "sqrp") \o EArg(IF i = 1 THEN nines ELSE Txt(0, P10(CfgDigits - 1) -- 1, 7)) \o IArg(0) ELSE CaseLine("M", i, "mulp") \o EArg(Big(Hash(h, 1))) \o EArg(Big(Hash(h, 2))) \o IArg(0))
     ELSE IF i = 1 THEN CaseLine("S", i, "sqrp") \o EArg(nines) \o IArg(0) ELSE line
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
