------------------------------- MODULE GenC29 -------------------------------
(***************************************************************************)
(* Inputs of the helper algorithms.                                        *)
(***************************************************************************)
EXTENDS GenElem
N == IF CfgDigits # 101 THEN 1 ELSE IF Thorough THEN 40000 ELSE 9000
Cat(f(_), n) == LET step(q) == <<q[1] + 1, q[2] \o f(q[1])>> IN Times(step, n, <<1, "">>)[2]
Dc(h, m, s) == Txt(Hash(h, 3) %% 2, Hash(h, 4) %% m, 0 - s)
Num(h) == LET c == Hash(h, 1) %% 5 IN CASE c = 0 -> Small(Hash(h, 2)) [] c = 1 -> RealIn(Hash(h, 2), -20, 20) [] c = 2 -> Dc(h, P10(5), 0) [] OTHER -> Dc(h, P10(30), 28)
Pos(h) == LET c == Hash(h, 1) %% 3 IN IF c = 0 THEN Txt(0, 1 ++ (Hash(h, 2) %% 30), 0) ELSE Txt(0, 1 ++ (Hash(h, 4) %% P10(30)), -28)
\* ---- tables: nodes at scale 10^-s (or integers), strictly ascending
Nodes(h, n) == LET step(q) == <<q[1] + 1, Append(q[2], q[3]), q[3] ++ 1 ++ (Hash(h, 100 + q[1]) %% (IF (Hash(h, 200 + q[1]) %% 3) \doteq 0 THEN 3 ELSE P10(20)))>>
               IN Times(step, n, <<1, <<>>, (Hash(h, 99) %% P10(20)) -- (5 ** P10(19))>>)[2]
At1(h, nd) == \* an abscissa as an integer at the nodes' scale
  LET n == Len(nd)
      k == 1 + (Hash(h, 11) %% n)
      c == Hash(h, 12) %% 6
  IN IF n = 0 THEN 7 ELSE CASE c = 0 -> nd[1] -- (Hash(h, 13) %% 5) [] c = 1 -> nd[n] ++ (Hash(h, 13) %% 5) [] c = 2 -> nd[k] [] c = 3 -> nd[k] ++ 1
        [] c = 4 -> nd[k] -- 1 [] OTHER -> IF k = n THEN nd[1] ++ (Hash(h, 14) %% (1 ++ (nd[n] -- nd[1]))) ELSE nd[k] ++ (Hash(h, 14) %% (nd[k + 1] -- nd[k]))
Table(h) ==
  LET n == Hash(h, 5) %% 9
      nd == Nodes(h, n)
      s == PickSeq(Hash(h, 6), <<0, 3, 20, 30, -40>>)
      q == At1(h, nd)
      fine == (Hash(h, 7) %% 3) \doteq 0        \* between the grid points
      x == IF fine THEN Txt(0, (q ** P10(20)) ++ (Hash(h, 8) %% P10(20)), 0 - s - 20) ELSE Txt(0, q, 0 - s)
      row(k) == EArg(Txt(0, nd[k], 0 - s)) \o EArg(Num(Hash(h, 300 + k)))
  IN EArg(x) \o Cat(row, n)
Dn(h, m) == Str((Hash(h, 1) %% (2 * m + 1)) -- m)
TableD(h, e) ==
  LET n == Hash(h, 5) %% 9
      st(q) == <<q[1] + 1, Append(q[2], q[3]), q[3] ++ 1 ++ (Hash(h, 100 + q[1]) %% 40)>>
      nd == Times(st, n, <<1, <<>>, (Hash(h, 99) %% 200) -- 100>>)[2]
      q == At1(h, nd)
      x == IF (Hash(h, 7) %% 2) \doteq 0 THEN Str(q) ELSE Str(q) \o PickSeq(Hash(h, 8), <<".5", ".25", ".125", ".7", ".001">>)
      row(k) == EArg(Str(nd[k])) \o EArg(Dn(Hash(h, 300 + k), 1000))
  IN EArg(x) \o Cat(row, n)
\* ---- roots at scale 10^-6
Root(h) == (Hash(h, 1) %% 20000001) -- 10000000
RootSet(h) ==
  LET n == 1 + (Hash(h, 21) %% 5)
      b == [k \in 1..n |-> Root(Hash(h, k))]
  IN IF (Hash(h, 22) %% 5) \doteq 0 /\ n > 1 THEN [b EXCEPT ![n] = b[1]] ELSE b
Lead1(h) == PickSeq(h, <<"1", "-1", "3", "-0.007", "1e40", "-1e-30", "2.5">>)
Tol(h, newton) == LET c == Hash(h, 23) %% 4 IN IF c = 0 THEN PickSeq(Hash(h, 24), <<"1e-3", "1e-6", "0.5", "1e-80", "1e-95">>) ELSE Txt(0, 1 ++ (Hash(h, 25) %% 99), (0 - 3) -- (Hash(h, 26) %% 90))
Six(n) == Txt(0, n, -6)
Bracket(h, rs) ==
  LET n == Len(rs)
      k == 1 + (Hash(h, 31) %% n)
      c == Hash(h, 32) %% 8
      w == 1 ++ (Hash(h, 33) %% PickSeq(Hash(h, 34), <<10, 1000, 1000000, 30000000>>))
      v == 1 ++ (Hash(h, 35) %% PickSeq(Hash(h, 36), <<10, 1000, 1000000, 30000000>>))
      \* so that the middle lies outside all roots
      st(f(_, _)) == LET go(q) == <<q[1] + 1, f(q[2], rs[q[1]])>> IN Times(go, n, <<1, rs[1]>>)[2]
      mx == st(BMax)
      mn == st(BMin)
  IN CASE c = 0 -> <<rs[k], rs[k] ++ w>> [] c = 1 -> <<rs[k] -- w, rs[k]>>
       [] c = 2 -> <<mx -- w -- 1000, mx ++ w ++ v ++ 1000>> [] c = 3 -> <<mn -- w -- v -- 1000, mn ++ w ++ 1000>>
       [] c = 4 -> <<mx ++ w, mx ++ w ++ v>>
       [] OTHER -> <<rs[k] -- w, rs[k] ++ v>>
RootCase(h, newton) ==
  LET rs == RootSet(Hash(h, 1))
      b == Bracket(Hash(h, 2), rs)
      arg(k) == EArg(Six(rs[k]))
  IN EArg(Six(b[1])) \o EArg(Six(b[2])) \o EArg(Tol(Hash(h, 3), newton)) \o EArg(Lead1(Hash(h, 4))) \o Cat(arg, Len(rs))
\* ---- polynomials
Coefs(h, n) == LET arg(k) == EArg(Dc(Hash(h, k), P10(12), 9)) IN Cat(arg, n)
PosCoefs(h, n) == LET arg(k) == EArg(Txt(Hash(h, 0) %% 2, 1 ++ (Hash(h, k) %% P10(8)), -7)) IN Cat(arg, n)
Js == <<1, 2, 3, 4, 6, 8, 9, 12, 16, 27, 32, 36, 49, 60, 64, 81, 97, 128, 210, 256, 720, 1024, 1031, 5040, 7919, 65536, 99991, 100000, 1000003, 16777216, 97 * 97, 101 * 103 * 107>>
J1(h) == IF (Hash(h, 1) %% 2) \doteq 0 THEN PickSeq(Hash(h, 2), Js) ELSE 1 ++ (Hash(h, 3) %% 3000)
JArgs(h) == LET arg(k) == IArg(J1(Hash(h, k))) IN Cat(arg, 1 + (Hash(h, 50) %% 12))
Expo(h) == LET c == Hash(h, 51) %% 5 IN CASE c = 0 -> Str((Hash(h, 52) %% 400) -- 200) [] c = 1 -> Str((Hash(h, 52) %% 400) -- 200) \o ".5" [] c = 2 -> Small(Hash(h, 54) %% 27) [] OTHER -> Dc(h, P10(20), 18)
IntTxt(lo, hi, h) == PickSeq(Hash(h, 1), <<lo, hi, "0", "1", "65", "48", IF SubSeq(lo, 1, 1) = "-" THEN "-1" ELSE "9", IF SubSeq(lo, 1, 1) = "-" THEN Str(0 -- (Hash(h, 2) %% Dec(hi))) ELSE "7", Str(Hash(h, 2) %% Dec(hi)), Str(Hash(h, 3) %% Dec(hi))>>)
Casts == <<"i8", "u8", "i16", "u16", "i32", "u32", "i64", "f", "d", "l", "e">>
Cast(h) ==
  LET t == PickSeq(h, Casts)
      r == Hash(h, 1)
  IN SArg(t) \o SArg(
     CASE t = "i8" -> IntTxt("-128", "127", r) [] t = "u8" -> IntTxt("0", "255", r) [] t = "i16" -> IntTxt("-32768", "32767", r) [] t = "u16" -> IntTxt("0", "65535", r)
       [] t = "i32" -> IntTxt("-2147483648", "2147483647", r) [] t = "u32" -> IntTxt("0", "4294967295", r) [] t = "i64" -> IntTxt("-9223372036854775808", "9223372036854775807", r)
       [] t = "f" -> Txt(r %% 2, Hash(r, 2) %% P10(9), (0 - 25) ++ (Hash(r, 3) %% 40))
       [] OTHER -> Txt(r %% 2, Hash(r, 2) %% P10(20), (0 - 60) ++ (Hash(r, 3) %% 90)))
Case(i) ==
  LET h == Hash(Seed, i)
      CL(op) == CaseLine("U", i, op)
      c == i % 25
      h1 == Hash(h, 1)
      h2 == Hash(h, 2)
      B(x) == IArg(Hash(x, 9) %% 2)
      tm(k) == EArg(Num(Hash(h, 400 + k)))
      ct(k) == EArg(Dc(Hash(h, 400 + k), P10(25), 22))
      nt == Hash(h, 399) %% 20
  IN IF i = 1 THEN CL("dscale")
     ELSE CASE c \in {0, 1} -> CL("interp") \o Table(h) [] c = 2 -> CL("interpd") \o TableD(h, 0) [] c = 3 -> CL("interpm") \o TableD(h, 0)
            [] c = 4 -> CL("ptless") \o EArg(Dn(h1, 3)) \o EArg(Dn(h2, 3)) \o EArg(Dn(Hash(h, 3), 3)) \o EArg(Dn(Hash(h, 4), 3))
            [] c \in {5, 6} -> CL("altsum") \o B(h1) \o B(h2) \o EArg(IF (h %% 2) \doteq 0 THEN "0" ELSE Num(Hash(h, 3))) \o EArg(Num(Hash(h, 4))) \o Cat(tm, nt)
            [] c \in {7, 8} -> CL("coefexp") \o B(h1) \o EArg(Dc(h1, P10(25), 24)) \o EArg(Num(Hash(h, 3))) \o EArg(Num(Hash(h, 4))) \o Cat(ct, nt)
            [] c = 9 -> CL("ccoefexp") \o EArg(Dc(h1, P10(25), 24)) \o EArg(Dc(h2, P10(25), 24)) \o Cat(ct, nt)
            [] c \in {10, 11} -> CL("jpow") \o EArg(Expo(h1)) \o JArgs(h2)
            [] c = 12 -> CL("cjpow") \o EArg(IF (Hash(h1, 51) %% 5) = 2 THEN Small(Hash(h1, 54) %% 18) ELSE Expo(h1)) \o EArg(IF (h %% 3) \doteq 0 THEN "0" ELSE Dc(h2, P10(20), 18)) \o JArgs(Hash(h, 3))
            [] c \in {13, 14} -> CL("ncast") \o Cast(h1)
            [] c \in {15, 16, 17} -> CL("bisect") \o RootCase(h1, FALSE)
            [] c \in {18, 19, 20} -> CL("newton") \o RootCase(h1, TRUE)
            [] c = 21 -> CL("deriv") \o B(h1) \o EArg(Dc(h1, P10(12), 10)) \o EArg(Txt(0, 1 ++ (h2 %% 99), (0 - 2) -- (Hash(h2, 1) %% 30))) \o Coefs(Hash(h, 3), 1 + (Hash(h, 4) %% 7))
            [] c = 22 -> CL("trap") \o B(h1) \o EArg(Pos(h1)) \o EArg(Txt(0, 31 ++ (h2 %% 500), 0)) \o EArg(Txt(0, 1, (0 - 1) -- (Hash(h, 5) %% 90))) \o PosCoefs(h2, 1 + (Hash(h, 4) %% 2))
            [] c = 23 -> (IF (Hash(h, 8) %% 4) \doteq 0 THEN CL("trap") \o IArg(0) \o EArg(Txt(0, 31 ++ (h2 %% 500), 0)) \o EArg(Pos(h1)) \o EArg(PickSeq(Hash(h, 5), <<"1e-2", "1e-3", "2e-5", "1e-6">>)) \o PosCoefs(h2, 3 + (Hash(h, 4) %% 2))
                         ELSE CL("trap") \o IArg(0) \o EArg(Pos(h1)) \o EArg(Txt(0, 31 ++ (h2 %% 500), 0)) \o EArg(PickSeq(Hash(h, 5), <<"1e-2", "1e-3", "2e-5", "1e-6">>)) \o PosCoefs(h2, 3 + (Hash(h, 4) %% 2)))
            [] OTHER -> (IF (Hash(h, 9) %% 4) \doteq 0 THEN CL("trapper") \o EArg(Txt(0, 105 ++ (h1 %% 3000), -2)) ELSE CL("ncast") \o Cast(h1))
ASSUME EmitLines(IOEnv.VERIF_CASES, [i \in 1..N |-> Case(i)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
