------------------------------- MODULE GenC10 -------------------------------
EXTENDS GenBase
(* Values against formats: flags, precision, width, fill.                  *)
N == IF Thorough THEN 90000 ELSE 15000
Float(h) == PickSeq(h, <<"", "", "f", "f", "s", "s">>)
Flags(h) == Float(Hash(h, 1)) \o PickSeq(Hash(h, 2), <<"", "p">>) \o PickSeq(Hash(h, 3), <<"", "", "+">>) \o PickSeq(Hash(h, 4), <<"", "", "u">>) \o PickSeq(Hash(h, 5), <<"", "l", "r", "i">>)
Precs == <<-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 63, 64, 65, 98, 99, 100, 101, 102, 110, 116, 117, 120, 127, 128, 129, 130, 150, 200>>
Prec(h) == IF (Hash(h, 1) %% 2) \doteq 0 THEN PickSeq(Hash(h, 2), Precs) ELSE Hash(h, 3) %% 40
Width(h) == PickSeq(h, <<0, 0, 0, 1, 5, 12, 20, 40, 130, 300>>)
\* values that round: k digits, then 4999.., 5000.., 9999.. or zeros and a trace
RECURSIVE Nines(_)
Nines(k) == IF k = 0 THEN 0 ELSE P10(k) -- 1
RVal(h) ==
  LET k == 1 + (Hash(h, 1) %% 14)
      t == 1 + (Hash(h, 2) %% 100)
      hd == IF (Hash(h, 3) %% 3) \doteq 0 THEN P10(k) -- 1 ELSE IF (Hash(h, 3) %% 3) = 1 THEN P10(k - 1) ELSE P10(k - 1) ++ (Hash(h, 4) %% (9 ** P10(k - 1)))
      tl == CASE (Hash(h, 5) %% 6) \doteq 0 -> Nines(t) [] (Hash(h, 5) %% 6) \doteq 1 -> 5 ** P10(t - 1) [] (Hash(h, 5) %% 6) \doteq 2 -> (5 ** P10(t - 1)) -- 1 [] (Hash(h, 5) %% 6) \doteq 3 -> BMin((5 ** P10(t - 1)) ++ 1, Nines(t)) [] (Hash(h, 5) %% 6) \doteq 4 -> 1 [] OTHER -> 0
      m == (hd ** P10(t)) ++ tl
      e == (Hash(h, 6) %% 40) -- 20 -- k -- t
  IN Txt(Hash(h, 7) %% 2, m, e)
Val(h) == LET c == Hash(h, 1) %% 16 IN
  CASE c = 0 -> PickSeq(Hash(h, 2), <<"nan", "inf", "-inf", "0", "-0", "1", "-1", "10", "0.1", "999999.5", "9999999", "1e-5", "0.0001", "123456", "1234567", "-0.05", "0.5", "1.5", "2.5", "1e99", "1e100", "1e101", "9.5", "99.5", "0.95", "0.995">>)
    [] c \preceq 8 -> RVal(Hash(h, 3))
    [] c \preceq 12 -> LET n == 1 + (Hash(h, 4) %% 16) IN Sized(Hash(h, 5), n, -40, 40)
    [] c = 13 -> LET n == 1 + (Hash(h, 4) %% 16) IN Sized(Hash(h, 5), n, -300, 300)
    [] OTHER -> Operand(Hash(h, 6), 15)
\* very large and very small magnitudes are not written in the fixed format
FVal(h, f) == IF f # "" /\ SubSeq(f, 1, 1) = "f" THEN (LET c == Hash(h, 1) %% 4 IN IF c \preceq 1 THEN RVal(Hash(h, 3)) ELSE IF c = 2 THEN Sized(Hash(h, 5), 1 + (Hash(h, 4) %% 16), -30, 30) ELSE Sized(Hash(h, 5), 1 + (Hash(h, 4) %% 16), -250, 250))
              ELSE Val(h)
Case(i) == LET h == Hash(Seed, i)  f == Flags(Hash(h, 1)) IN
  CaseLine("T", i, "text") \o EArg(IF i % 7 = 0 THEN PickSeq(Hash(h, 2), <<"nan", "inf", "-inf", "0", "-0", "1", "-1", "10", "0.1", "999999.5", "9999999", "1e-5", "0.0001", "123456", "1234567", "-0.05", "0.5", "1.5", "2.5", "1e99", "1e100", "1e101", "9.5", "99.5", "0.95", "0.995", "99999.95", "0.00099995">>)
                                   ELSE FVal(Hash(h, 2), f)) \o SArg(f) \o IArg(Prec(Hash(h, 3))) \o IArg(Width(Hash(h, 4))) \o SArg(PickSeq(Hash(h, 5), <<"%20", "*", "0">>))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
