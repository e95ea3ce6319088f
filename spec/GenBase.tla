------------------------------ MODULE GenBase ------------------------------
(***************************************************************************)
(* Case generation: operands as members of a lattice of limb patterns,     *)
(* lengths, exponents and signs.  Everything is a function of the case     *)
(* index and the seed.                                                     *)
(***************************************************************************)
EXTENDS EFloatValue, IOUtils, TextIO
Seed == Dec(IOEnv.VERIF_SEED)
Thorough == IOEnv.VERIF_TIER = "thorough"
Tab == "\t"

\* An 8-digit limb by kind (h: hash for the random kinds)
LimbKinds == <<0, 1, 99999999, 50000000, 49999999, 10000000, 99999998, -1, -1, -1, -2>>
Limb(kind, h) == IF kind = -1 THEN h %% 100000000 ELSE IF kind = -2 THEN ((h %% 9) ++ 1) ** 11111111 ELSE kind
\* n limbs below a leading limb lead; kinds chosen by hash
RECURSIVE Limbs(_, _, _)
Limbs(n, h, acc) == IF n = 0 THEN acc
  ELSE Limbs(n - 1, Hash(h, n), (acc ** 100000000) ++ Limb(PickSeq(Hash(h, n + 1000), LimbKinds), Hash(h, n + 2000)))
\* n limbs all of one kind
RECURSIVE Rep(_, _, _)
Rep(n, limb, acc) == IF n = 0 THEN acc ELSE Rep(n - 1, limb, (acc ** 100000000) ++ limb)
Leads == <<1, 9, 10, 99999999, 10000000, 50000000, 49999999, 2, 4, 5, 99, 12345678, -1, -1>>
Lead(h) == LET l == PickSeq(h, Leads) IN IF l = -1 THEN 1 ++ (Hash(h, 5) %% 99999999) ELSE l
\* a mantissa of total limb count n (n >= 1) in the style st
Mant(st, n, h) ==
  CASE st = 0 -> Limbs(n - 1, h, Lead(Hash(h, 1)))                   \* mixed extreme limbs
    [] st = 1 -> Rep(n - 1, 99999999, 99999999)                      \* all nines
    [] st = 2 -> P10(8 * (n - 1)) ** Lead(Hash(h, 1))                \* one limb, zeros
    [] st = 3 -> P10(8 * (n - 1)) ++ (Hash(h, 2) %% 1000)            \* 1 000..0 xxx
    [] st = 4 -> 1 ++ ((Hash(h, 3) ** Hash(h, 4) ** Hash(h, 5) ** Hash(h, 6) ** Hash(h, 12)) %% P10(8 * n - (Hash(h, 7) %% 8)))  \* generic digits
    [] st = 5 -> 1 ++ (Hash(h, 8) %% 100)                            \* small integer
    [] st = 6 -> (P10(8 * n) -- 1) // (1 ++ (Hash(h, 9) %% 9))       \* 1/k patterns
    [] st = 7 -> Rep(n - 1, 0, Lead(Hash(h, 1))) ++ (P10(8 * (Hash(h, 10) %% n)) ** (1 ++ (Hash(h, 11) %% 99999999)))

\* "m E e" as text (the recorder reads the operand back, so this is only a way to reach it)
Txt(neg, m, e) == (IF (neg \doteq 1) # (BSgn(m) = -1) THEN "-" ELSE "") \o Str(BAbs(m)) \o "e" \o Str(e)
\* operand number i of a case: style, length, exponent, sign from the hash
Exps == <<0, 0, 0, 1, -1, 3, -4, 7, 8, -8, 9, 16, -16, 40, -40, 97, -99, 100, -101, 112, -120, 128, -128, 250, -300, 1000, -1000, 123456, -98765>>
Operand(h, maxlimbs) ==
  LET n == 1 + (Hash(h, 21) %% maxlimbs)
      m == Mant(Hash(h, 22) %% 8, n, Hash(h, 23))
      e == PickSeq(Hash(h, 24), Exps)
      c == Hash(h, 25) %% 4
  IN Txt(Hash(h, 26) %% 2, m, IF c = 0 THEN e ELSE IF c = 1 THEN e -- (8 * (n - 1)) ELSE IF c = 2 THEN 0 -- (8 * (n - 1)) ELSE 0 -- (Hash(h, 27) %% (8 * n)))
Specials == <<"nan", "inf", "-inf", "0", "-0", "1", "-1", "max", "-max", "min", "-min", "0.1", "-3", "99999999", "100000000", "1e-8", "-1e100", "7e-333">>
\* a special value now and then, else an ordinary operand
AnyOp(h, maxlimbs) == IF (Hash(h, 31) %% 12) \doteq 0 THEN PickSeq(Hash(h, 32), Specials) ELSE Operand(h, maxlimbs)
\* a magnitude at which both the exponent and the digits are ordinary: |x| between 10^lo and 10^hi, n limbs
Sized(h, n, lo, hi) == Txt(Hash(h, 41) %% 2, Mant(Hash(h, 42) %% 8, n, Hash(h, 43)), (lo ++ (Hash(h, 44) %% (hi - lo + 1))) -- (8 * n))
CaseLine(fam, i, op) == fam \o ToString(i) \o Tab \o op
IArg(n) == Tab \o "i:" \o Str(n)
SArg(t) == Tab \o "s:" \o t
EArg(t) == Tab \o "e:" \o t
=============================================================================
