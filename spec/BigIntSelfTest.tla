---------------------------- MODULE BigIntSelfTest ----------------------------
(* The Java evaluation of BigInt agrees with the definitions: directly on small integers (where TLC's own
   arithmetic is the reference), by recurrences that determine each operator on large ones. *)
EXTENDS BigInt, Primes, Iterate, Integers, Sequences, TLC
R == (-45)..45
N == 0..60
ASSUME \A a \in R, b \in R :
   /\ (a ++ b) \doteq (a + b) /\ (a -- b) \doteq (a - b) /\ (a ** b) \doteq (a * b)
   /\ (a \prec b) = (a < b) /\ (a \preceq b) = (a <= b) /\ (a \succ b) = (a > b) /\ (a \succeq b) = (a >= b) /\ (a \doteq b) = (a = b)
   /\ BMax(a, b) \doteq (IF a < b THEN b ELSE a) /\ BMin(a, b) \doteq (IF a < b THEN a ELSE b)
   /\ b > 0 => (a // b) \doteq (a \div b) /\ (a %% b) \doteq (a % b)
ASSUME \A a \in R : BAbs(a) \doteq (IF a < 0 THEN -a ELSE a) /\ BSgn(a) = (IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1)
   /\ Dec(ToString(a)) \doteq a /\ Str(a) = ToString(a)
ASSUME \A a \in {-5,-4,-3,-2,-1,1,2,3,4,5}, k \in 0..8 : (a ^^ k) \doteq (a ^ k)
ASSUME \A k \in 0..8 : P10(k) \doteq (10 ^ k) /\ \A j \in 1..9 : NDig(j * (10 ^ k)) = k + 1 /\ NDig(j * (10 ^ k) - 1) = (IF j = 1 THEN k ELSE k + 1)
ASSUME \A a \in 0..3000 : LET r == ISqrt(a) IN r * r <= a /\ (r + 1) * (r + 1) > a
\* beyond 32 bits: the definitions' recurrences
Ks == <<5, 9, 10, 18, 19, 20, 40, 121>>
Js == <<-1, 0, 7>>
BigAt(i) == LET k == Ks[1 + ((i \div 3) % 8)]
                v == P10(k) ++ (Js[1 + (i % 3)] ** P10(k \div 2))
            IN IF i < 24 THEN v ELSE 0 -- v
Idx == 0..47
ASSUME \A i \in Idx, j \in Idx : LET a == BigAt(i)  b == BigAt(j) IN
   /\ ((a ++ b) -- b) \doteq a /\ (a ** (b ++ 1)) \doteq ((a ** b) ++ a) /\ (a \prec b) = (BSgn(a -- b) = -1)
   /\ (BSgn(b) = 1 => LET q == a // b  r == a %% b IN ((q ** b) ++ r) \doteq a /\ r \succeq 0 /\ r \prec b)
ASSUME \A i \in Idx : LET a == BigAt(i) IN Dec(Str(a)) \doteq a /\ (a ^^ 3) \doteq (a ** (a ** a)) /\ (BSgn(a) = 1 => LET r == ISqrt(a) IN (r ** r) \preceq a /\ ((r ++ 1) ** (r ++ 1)) \succ a)
ASSUME \A k \in {10, 50, 127} : P10(k) \doteq (10 ** P10(k - 1)) /\ NDig(P10(k)) = k + 1 /\ NDig(P10(k) -- 1) = k
M127 == (2 ^^ 127) -- 1
ASSUME \A a \in {0, 1, 77, 12345678}, b \in {0, 3, 99991} :
   LET u == ((a ** 73939133) ++ (b ** 433494437) ++ 1597) %% M127
       v == ((u ** u) ++ (u ** 6700417) ++ b) %% M127
       w == ((v ** v) ++ (v ** 104729) ++ a) %% M127
   IN Hash(a, b) \doteq (w // 65536)
ASSUME \A n \in 0..2000 : IsPrime(n) = (n >= 2 /\ \A d \in 2..(n - 1) : n % d # 0)
RECURSIVE PF(_, _)
PF(k, n) == IF n = 0 THEN "" ELSE IF IsPrime(k) THEN ToString(k) \o (IF n = 1 THEN "" ELSE " ") \o PF(k + 1, n - 1) ELSE PF(k + 1, n)
ASSUME \A n \in 0..200 : FirstPrimes(n) = PF(2, n)
\* repetition: sums of the first n numbers and of the digits of n
SumTo(n) == LET step(s) == <<s[1] + 1, s[2] + s[1]>> IN Times(step, n, <<1, 0>>)[2]
DigitSum(n) == LET step(s) == <<s[1] \div 10, s[2] + (s[1] % 10)>>
                   done(s) == s[1] = 0
               IN Until(step, done, <<n, 0>>)[2]
ASSUME \A n \in 0..50 : SumTo(n) = (n * (n + 1)) \div 2
ASSUME \A n \in 0..3000 : DigitSum(n) = (n \div 1000) + ((n \div 100) % 10) + ((n \div 10) % 10) + (n % 10)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
