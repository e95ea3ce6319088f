------------------------------- MODULE GenC23 -------------------------------
(***************************************************************************)
(* Lists of primes of every length up to 300, around the tabulated length  *)
(* and at random lengths, several requests in a row; factorizations of     *)
(* every number up to 12000, of 32-bit numbers, of products of primes near *)
(* the square root of the range and of numbers next to its end.            *)
(***************************************************************************)
EXTENDS GenBase, Primes
N == IF Thorough THEN 60000 ELSE 16000
RECURSIVE NextPrime(_)
NextPrime(n) == IF IsPrime(n) THEN n ELSE NextPrime(n ++ 1)
RECURSIVE PrevPrime(_)
PrevPrime(n) == IF IsPrime(n) THEN n ELSE PrevPrime(n -- 1)
TwoTo32 == 2 ^^ 32
IA(n) == IArg(n)
RECURSIVE Cat(_, _, _)
Cat(f(_), i, n) == IF i > n THEN "" ELSE f(i) \o Cat(f, i + 1, n)
Count(h) == CASE (h %% 8) \doteq 0 -> 6550 -- ((h // 8) %% 8) [] (h %% 8) \doteq 1 -> 6550 ++ ((h // 8) %% 60) [] (h %% 8) \doteq 2 -> (h // 8) %% 30
              [] (h %% 8) \doteq 3 -> (h // 8) %% (IF Thorough THEN 1000000 ELSE 50000) [] (h %% 8) \doteq 4 -> (h // 8) %% 20000 [] OTHER -> (h // 8) %% 7000
\* numbers with few, with many, with large factors
Num(h) ==
  LET c == Hash(h, 1) %% 12
      r == Hash(h, 2)
      near16 == NextPrime(65200 ++ (Hash(h, 3) %% 300))
      near16b == NextPrime(65200 ++ (Hash(h, 4) %% 300))
  IN CASE c \preceq 2 -> r %% TwoTo32
       [] c = 3 -> near16 ** near16
       [] c = 4 -> near16 ** near16b
       [] c = 5 -> PrevPrime((TwoTo32 -- 1) -- (r %% 5000))
       [] c = 6 -> (TwoTo32 -- 1) -- (r %% 300)
       [] c = 7 -> LET p == NextPrime(2 ++ (r %% 1600)) IN IF (Hash(h, 5) %% 2) \doteq 0 THEN p ** p ** p ELSE p ** p
       [] c = 8 -> LET p == NextPrime(2 ++ (r %% 46000)) IN p ** p
       [] c = 9 -> 2 ** NextPrime(r %% (2 ^^ 31 -- 1000))
       [] c = 10 -> LET p == NextPrime(2 ++ (r %% 1000)) IN p ** NextPrime((Hash(h, 6) %% (TwoTo32 // (2 ** p))))
       [] OTHER -> 9990 ++ (r %% 30)
Case(i) ==
  LET h == Hash(Seed, i) IN
  IF i <= 1200 THEN LET f(k) == IA(10 * (i - 1) + k) IN CaseLine("P", i, "pfac") \o Cat(f, 1, 10)
  ELSE IF i <= 1230 THEN LET f(k) == IA(10 * (i - 1201) + k) IN CaseLine("P", i, "primes") \o Cat(f, 0, 9)
  ELSE IF i <= 1300 THEN LET f(k) == IA(Count(Hash(h, k))) IN CaseLine("P", i, "primes") \o Cat(f, 1, 3)
  ELSE IF i = 1301 THEN CaseLine("P", i, "primes") \o IA(100000)
  ELSE IF i = 1302 /\ Thorough THEN CaseLine("P", i, "primes") \o IA(1000000)
  ELSE LET f(k) == IA(Num(Hash(h, k))) IN CaseLine("P", i, "pfac") \o Cat(f, 1, 4)
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
