------------------------------- MODULE GenC26 -------------------------------
(***************************************************************************)
(* Up to three upper and three lower parameters of moderate size, upper     *)
(* ones that are non-positive integers (the series terminates), arguments   *)
(* where the series converges fast.                                         *)
(***************************************************************************)
EXTENDS GenElem
N == IF Thorough THEN 20000 ELSE 8000
Dc(neg, n, k) == Txt(neg, n, 0 - k)
\* a parameter: integer, half integer, third, decimal fraction, small
Upper(h) == LET c == Hash(h, 141) %% 8 IN
  CASE c = 0 -> Str(1 ++ (Hash(h, 142) %% 30)) [] c = 1 -> "-" \o Str(1 ++ (Hash(h, 142) %% 45)) [] c = 2 -> Dc(Hash(h, 143) %% 2, 5 ++ (10 ** (Hash(h, 142) %% 20)), 1)
    [] c = 3 -> Dc(Hash(h, 143) %% 2, 1 ++ (Hash(h, 142) %% P10(6)), 9) [] c = 4 -> PickSeq(Hash(h, 142), <<"1", "0", "2", "0.5", "-1", "1e-30", "-1e-50">>)
    [] OTHER -> Dc(Hash(h, 143) %% 2, 1 ++ (Hash(h, 142) %% (25 ** P10(10))), 10)
Lower(h) == LET c == Hash(h, 151) %% 8 IN
  CASE c \preceq 1 -> Str(1 ++ (Hash(h, 152) %% 30)) [] c = 2 -> Dc(Hash(h, 153) %% 2, 5 ++ (10 ** (Hash(h, 152) %% 20)), 1)
    [] c = 3 -> Dc(Hash(h, 153) %% 2, 1 ++ (10 ** (Hash(h, 152) %% P10(6))), 8) [] c = 4 -> PickSeq(Hash(h, 152), <<"1", "2", "0.5", "1.5", "1e-20", "3">>)
    [] OTHER -> Dc(Hash(h, 153) %% 2, 1 ++ (10 ** (Hash(h, 152) %% (25 ** P10(9)))), 10)
Minus(h) == "-" \o Str(Hash(h, 142) %% 45)
\* |x| <= 30
Wide(h) == LET c == Hash(h, 161) %% 6 IN CASE c = 0 -> PickSeq(Hash(h, 162), <<"0", "1", "-1", "0.5", "-0.5", "10", "-10", "1e-100">>) [] c = 1 -> RealIn(Hash(h, 163), -30, 0) [] OTHER -> Dc(Hash(h, 164) %% 2, Hash(h, 165) %% (30 ** P10(12)), 12)
\* |x| <= 0.8
Disc(h) == LET c == Hash(h, 161) %% 6 IN CASE c = 0 -> PickSeq(Hash(h, 162), <<"0", "0.5", "-0.5", "0.8", "-0.8", "0.25", "1e-100">>) [] c = 1 -> RealIn(Hash(h, 163), -30, -1) [] OTHER -> Dc(Hash(h, 164) %% 2, Hash(h, 165) %% (8 ** P10(12)), 13)
RECURSIVE Ps(_, _, _, _)
Ps(f(_), h, i, n) == IF i > n THEN "" ELSE EArg(f(Hash(h, i))) \o Ps(f, h, i + 1, n)
Shapes == <<<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<3, 2>>, <<2, 2>>, <<1, 2>>, <<3, 3>>, <<0, 2>>, <<1, 1>>, <<2, 1>>, <<1, 3>>, <<3, 1>>, <<0, 3>>>>
Case(i) ==
  LET h == Hash(Seed, i)
      s == Shapes[(i % 16) + 1]
      p == s[1]
      q == s[2]
      h1 == Hash(h, 1)
      head == CaseLine("H", i, "hyp") \o IArg(p) \o IArg(q)
      \* more than q + 1 upper parameters: terminating
      ups == IF p > q + 1 THEN Ps(Upper, h1, 1, p - 1) \o EArg(Minus(Hash(h1, 9))) ELSE Ps(Upper, h1, 1, p)
  IN head \o ups \o Ps(Lower, Hash(h, 2), 1, q) \o EArg(IF p = q + 1 THEN Disc(Hash(h, 3)) ELSE IF p > q + 1 THEN Disc(Hash(h, 3)) ELSE Wide(Hash(h, 3)))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
