------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* The mathematical integers, for evaluation by TLC without its 32-bit     *)
(* limit.  Every operator below is DEFINED by the ordinary operators of    *)
(* the standard Integers module: the definitions are the semantics.  TLC   *)
(* evaluates them through java/tlc2/overrides/BigIntOverrides.java         *)
(* (java.math.BigInteger); BigIntSelfTest.tla checks that the override     *)
(* agrees with the definitions.                                            *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

a ++ b == a + b
a -- b == a - b
a ** b == a * b
\* floor division and the matching remainder, positive divisor
a // b == a \div b
a %% b == a % b
a ^^ b == a ^ b

a \prec   b == a <  b
a \preceq b == a <= b
a \succ   b == a >  b
a \succeq b == a >= b
a \doteq  b == a =  b

BAbs(a) == IF a < 0 THEN 0 - a ELSE a
BSgn(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
BMax(a, b) == IF a < b THEN b ELSE a
BMin(a, b) == IF a < b THEN a ELSE b

\* 10^k
P10(k) == 10 ^ k

\* Number of decimal digits of |a|  (0 has none).
RECURSIVE NDig_(_)
NDig_(a) == IF a = 0 THEN 0 ELSE 1 + NDig_(a \div 10)
NDig(a) == NDig_(IF a < 0 THEN 0 - a ELSE a)

\* floor(sqrt(a)), a >= 0
RECURSIVE ISqrt_(_, _)
ISqrt_(a, r) == IF (r + 1) * (r + 1) <= a THEN ISqrt_(a, r + 1) ELSE r
ISqrt(a) == ISqrt_(a, 0)

\* the integer denoted by a string  [+-]digits
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE DecU_(_, _)
DecU_(s, acc) == IF s = "" THEN acc
                 ELSE DecU_(SubSeq(s, 2, Len(s)), 10 * acc + DigitVal(SubSeq(s, 1, 1)))
Dec(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = "-" THEN 0 - DecU_(SubSeq(s, 2, Len(s)), 0)
          ELSE IF Len(s) > 0 /\ SubSeq(s, 1, 1) = "+" THEN DecU_(SubSeq(s, 2, Len(s)), 0)
          ELSE DecU_(s, 0)

\* the decimal string of an integer
DigitStr(d) == CASE d = 0 -> "0" [] d = 1 -> "1" [] d = 2 -> "2" [] d = 3 -> "3" [] d = 4 -> "4"
                 [] d = 5 -> "5" [] d = 6 -> "6" [] d = 7 -> "7" [] d = 8 -> "8" [] d = 9 -> "9"
RECURSIVE StrU_(_)
StrU_(n) == IF n < 10 THEN DigitStr(n) ELSE StrU_(n \div 10) \o DigitStr(n % 10)
Str(n) == IF n < 0 THEN "-" \o StrU_(0 - n) ELSE StrU_(n)

\* pseudo-random integers for case generation: a fixed hash of two integers (no hidden state)
HashMod == 2 ^ 127 - 1
Hash(a, b) == LET u == (a * 73939133 + b * 433494437 + 1597) % HashMod
                  v == (u * u + u * 6700417 + b) % HashMod
                  w == (v * v + v * 104729 + a) % HashMod
              IN w \div 65536
=============================================================================
