--------------------------- MODULE EFloatMachine ---------------------------
(***************************************************************************)
(* A machine of NR number variables.  A state is the values of the         *)
(* variables, the precision each one computes with, and which of them were *)
(* left behind by a move (their value is unspecified until they are        *)
(* assigned).  An instruction is  <<code, i, j, k, text>>.                 *)
(***************************************************************************)
EXTENDS EFloatOps, Literal, SafeEval
NR == 4
Rg == 1..NR
Full == 1000                       \* no reduced precision

Assigning == {"lit", "cpy", "cpc", "mov", "mvc", "add", "sub", "mul", "div", "neg", "abs", "sqf"}
InPlace == {"ade", "sue", "mue", "die", "inc", "dec", "pin", "pde", "ngt", "sqt", "inv", "nad", "nsu", "nmu", "ndi", "get"}
Swapping == {"swp", "sws"}
Silent == {"prc", "cmp", "rel", "ini"}
\* the variables an instruction may change (1-based)
Targets(ins) == LET c == ins[1]
                    i == ins[2] + 1
                    j == ins[3] + 1
                IN IF c \in Swapping THEN {i, j} ELSE IF c \in {"mov", "mvc"} THEN {i, j} ELSE IF c \in Silent THEN {} ELSE {i}
Sources(ins) == LET c == ins[1]
                    i == ins[2] + 1
                    j == ins[3] + 1
                    k == ins[4] + 1
                IN CASE c = "lit" -> {} [] c \in {"add", "sub", "mul", "div"} -> {j, k} [] c \in {"cpy", "cpc", "mov", "mvc", "neg", "abs", "sqf"} -> {j}
                     [] c \in {"ade", "sue", "mue", "die", "swp", "sws", "cmp", "rel"} -> {i, j} [] c = "ini" -> {j, k} [] OTHER -> {i}
\* which variables hold a specified value afterwards
NextKnown(kn, ins) == LET c == ins[1]
                          i == ins[2] + 1
                          j == ins[3] + 1
                      IN IF c = "mov" THEN (IF i = j THEN kn ELSE [kn EXCEPT ![i] = TRUE, ![j] = FALSE])
                         ELSE IF c = "mvc" THEN [[kn EXCEPT ![j] = FALSE] EXCEPT ![i] = TRUE]
                         ELSE IF c \in Assigning THEN [kn EXCEPT ![i] = TRUE] ELSE kn
Min2(a, b) == IF a < b THEN a ELSE b
\* a lower bound of the precision each variable computes with afterwards
NextPrec(p, ins) ==
  LET c == ins[1]
      i == ins[2] + 1
      j == ins[3] + 1
      k == ins[4] + 1
  IN CASE c = "lit" -> [p EXCEPT ![i] = Full]
       [] c \in {"cpy", "cpc", "neg", "abs", "sqf", "mov", "mvc"} -> [p EXCEPT ![i] = p[j]]
       [] c \in Swapping -> [p EXCEPT ![i] = p[j], ![j] = p[i]]
       [] c \in {"ade", "sue", "mue", "die"} -> [p EXCEPT ![i] = Min2(p[i], p[j])]
       [] c \in {"add", "sub", "mul", "div"} -> [p EXCEPT ![i] = Min2(p[j], p[k])]
       [] c = "prc" -> [p EXCEPT ![i] = ins[3]]
       [] OTHER -> p
\* digits guaranteed at a precision setting (the binary engine counts bits)
Digits(be, n) == IF be = "mpfr" \/ n >= Full THEN 101
                 ELSE IF be = "gmp" THEN Min2(101, IF n < 15 THEN 13 ELSE n - 2)
                 ELSE Min2(101, IF n < 1 THEN 1 ELSE n)
AddDigits(be, n) == IF be = "gmp" THEN Digits(be, n) ELSE 101

TextValue(t) == CASE t = "nan" -> NaN [] t = "inf" -> Inf(0) [] t = "-inf" -> Inf(1) [] OTHER -> LitValue(t)
\* Results at full precision are the ones of the operators; a reduced precision, or operands a binary back end
\* holds to more digits than are observed, leave out the exactness of short results.
PAdd(be, x, y, r, d) == IF d = 101 /\ ~Binary(be) THEN AddOK(be, x, y, r, d) ELSE AddNear(be, x, y, r, d) \/ (IsFinite(x) /\ IsFinite(y) /\ IsFinite(r) /\ CloseTo(r, Add(x, y), MaxAbs(x, y), d))
PMul(be, x, y, r, d) == IF d = 101 /\ ~Binary(be) THEN MulOK(be, x, y, r, d) ELSE MulNear(be, x, y, r, d)
PSqrt(x, r, d) == CASE IsNaN(x) -> IsNaN(r)
                    [] IsZero(x) -> IsZero(r)
                    [] Sign(x) < 0 -> IsNaN(r)
                    [] IsInf(x) -> IsInf(r) /\ r.s = 0
                    [] OTHER -> IsFin(r) /\ Sign(r) = 1 /\ Close(Mul(r, r), x, d - 1)
B(b) == IF b THEN "1" ELSE "0"
RelStr(x, y) == LET c == Cmp(x, y) IN B(c < 0) \o B(c <= 0) \o B(c = 0) \o B(c # 0) \o B(c >= 0) \o B(c > 0)

\* b, a: observations (JSON) of the variables before and after; x: what the step returned
StepOK(be, ins, b, a, p) ==
  LET c == ins[1]
      i == ins[2] + 1
      j == ins[3] + 1
      k == ins[4] + 1
      u(n) == Obs(b[n])
      r == Obs(a[i])
      x == a[NR + 1]
      d2 == Digits(be, Min2(p[i], p[j]))
      d3 == Digits(be, Min2(p[j], p[k]))
      a2 == AddDigits(be, Min2(p[i], p[j]))
      a3 == AddDigits(be, Min2(p[j], p[k]))
      d1 == Digits(be, p[i])
      a1 == AddDigits(be, p[i])
      n == Int2V(Dec(ins[5]))
  IN CASE c = "lit" -> InOK(be, TextValue(ins[5]), r, 101)
       [] c \in {"cpy", "cpc", "mov", "mvc"} -> a[i] = b[j]
       [] c \in Swapping -> a[i] = b[j] /\ a[j] = b[i]
       [] c = "ade" -> PAdd(be, u(i), u(j), r, a2)
       [] c = "sue" -> PAdd(be, u(i), Neg(u(j)), r, a2) /\ (i = j /\ IsFinite(u(i)) => IsZero(r))
       [] c = "mue" -> PMul(be, u(i), u(j), r, d2)
       [] c = "die" -> DivOK(be, u(i), u(j), r, d2)
       [] c = "add" -> PAdd(be, u(j), u(k), r, a3)
       [] c = "sub" -> PAdd(be, u(j), Neg(u(k)), r, a3) /\ (j = k /\ IsFinite(u(j)) => IsZero(r))
       [] c = "mul" -> PMul(be, u(j), u(k), r, d3)
       [] c = "div" -> DivOK(be, u(j), u(k), r, d3)
       [] c = "inc" -> PAdd(be, u(i), One, r, a1)
       [] c = "dec" -> PAdd(be, u(i), Neg(One), r, a1)
       [] c = "pin" -> PAdd(be, u(i), One, r, a1) /\ x = b[i]
       [] c = "pde" -> PAdd(be, u(i), Neg(One), r, a1) /\ x = b[i]
       [] c = "neg" -> Same(r, Neg(u(j)))
       [] c = "ngt" -> Same(r, Neg(u(i)))
       [] c = "abs" -> Same(r, AbsV(u(j)))
       [] c = "sqt" -> PSqrt(u(i), r, d1)
       [] c = "sqf" -> PSqrt(u(j), r, Digits(be, p[j]))
       [] c = "inv" -> DivOK(be, One, u(i), r, d1)
       [] c = "nad" -> PAdd(be, u(i), n, r, a1)
       [] c = "nsu" -> PAdd(be, u(i), Neg(n), r, a1)
       [] c = "nmu" -> PMul(be, u(i), n, r, d1)
       [] c = "ndi" -> DivOK(be, u(i), n, r, d1)
       [] c = "get" -> InOK(be, LitValue(ins[5]), r, a1)
       [] c = "cmp" -> IF IsNaN(u(i)) \/ IsNaN(u(j)) THEN TRUE
                       ELSE LET v == Cmp(u(i), u(j)) IN (BSgn(Dec(x.v)) = v) \/ (v = 0 /\ Binary(be) /\ i # j)
       [] c = "rel" -> IF IsNaN(u(i)) \/ IsNaN(u(j)) THEN TRUE ELSE (x.v = RelStr(u(i), u(j))) \/ (Binary(be) /\ i # j /\ Cmp(u(i), u(j)) = 0)
       [] c \in {"prc", "ini"} -> TRUE

Init0 == [p |-> [n \in Rg |-> Full], kn |-> [n \in Rg |-> TRUE]]
RECURSIVE States(_, _, _)
\* the machine's own part of the state before every step
States(prog, n, acc) == IF n > Len(prog) THEN acc
  ELSE LET s == acc[n] IN States(prog, n + 1, Append(acc, [p |-> NextPrec(s.p, prog[n]), kn |-> NextKnown(s.kn, prog[n])]))
\* obs[n] is the observation before step n
RunOK(be, prog, obs) ==
  LET st == States(prog, 1, <<Init0>>)
      ok(n) == /\ StepOK(be, prog[n], obs[n], obs[n + 1], st[n].p)
               \* nothing but the target changes
               /\ \A v \in Rg \ Targets(prog[n]) : obs[n + 1][v] = obs[n][v]
      bad == {n \in 1..Len(prog) : ToString(Safe(ok(n))) # "TRUE"}
  IN IF \A v \in Rg : Obs(obs[1][v]).k = "z"
     THEN (IF bad = {} THEN "TRUE" ELSE "step " \o ToString(CHOOSE n \in bad : \A m \in bad : n <= m))
     ELSE "initial state"
\* the decimal back end, at full precision: equal operands give identical results anywhere in the program
Key(prog, obs, n) == LET ins == prog[n]
                         c == ins[1]
                         o(m) == obs[n][m + 1]
                     IN CASE c \in {"ade", "sue", "mue", "die"} -> <<c, o(ins[2]), o(ins[3])>>
                          [] c = "add" -> <<"ade", o(ins[3]), o(ins[4])>> [] c = "sub" -> <<"sue", o(ins[3]), o(ins[4])>>
                          [] c = "mul" -> <<"mue", o(ins[3]), o(ins[4])>> [] c = "div" -> <<"die", o(ins[3]), o(ins[4])>>
                          [] c = "sqt" -> <<c, o(ins[2])>> [] c = "sqf" -> <<"sqt", o(ins[3])>> [] c = "inv" -> <<c, o(ins[2])>>
                          [] OTHER -> <<n>>
Repeatable(prog, obs) == \A n \in 1..Len(prog) : \A m \in 1..(n - 1) :
   (Len(Key(prog, obs, n)) > 1 /\ Key(prog, obs, n) = Key(prog, obs, m)) => obs[n + 1][prog[n][2] + 1] = obs[m + 1][prog[m][2] + 1]
=============================================================================
