------------------------------- MODULE Primes -------------------------------
(***************************************************************************)
(* Prime numbers.  As in BigInt, the definitions are the meaning and        *)
(* java/tlc2/overrides/PrimesOverrides.java evaluates them;                 *)
(* BigIntSelfTest.tla compares.                                             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
IsPrime(n) == n >= 2 /\ \A d \in 2..(n - 1) : n % d # 0
\* the primes from k on, n of them
RECURSIVE PrimesFrom(_, _)
PrimesFrom(k, n) == IF n = 0 THEN "" ELSE IF IsPrime(k) THEN ToString(k) \o (IF n = 1 THEN "" ELSE " ") \o PrimesFrom(k + 1, n - 1) ELSE PrimesFrom(k + 1, n)
\* the first n primes, as text
FirstPrimes(n) == PrimesFrom(2, n)
=============================================================================
