------------------------------- MODULE GenProg -------------------------------
(* Programs for the machine EFloatMachine: every instruction reads only      *)
(* variables whose value is specified in the state it is executed in.        *)
EXTENDS GenBase, EFloatMachine, FiniteSets
InsTxt(c, i, j, k, t) ==
  LET s(n) == " " \o ToString(n - 1)
  IN CASE c \in {"lit", "get", "nad", "nsu", "nmu", "ndi", "prc"} -> c \o s(i) \o " " \o t
       [] c \in {"add", "sub", "mul", "div", "ini"} -> c \o s(i) \o s(j) \o s(k)
       [] c \in {"cpy", "cpc", "mov", "mvc", "swp", "sws", "ade", "sue", "mue", "die", "neg", "abs", "sqf", "cmp", "rel"} -> c \o s(i) \o s(j)
       [] OTHER -> c \o s(i)
\* Text(h, c): the text operand of instruction c;  Codes: the instruction mix;  max: number of steps
RECURSIVE Prog(_, _, _, _, _, _)
Prog(h, n, kn, Codes, Text(_, _), acc) ==
  IF n = 0 THEN acc
  ELSE LET g == Hash(h, n)
           c == PickSeq(Hash(g, 1), Codes)
           i == 1 + (Hash(g, 2) %% NR)
           j == IF (Hash(g, 3) %% 3) \doteq 0 THEN i ELSE 1 + (Hash(g, 4) %% NR)
           k == IF (Hash(g, 5) %% 3) \doteq 0 THEN j ELSE 1 + (Hash(g, 6) %% NR)
           t == Text(Hash(g, 7), c)
           ins0 == <<c, i - 1, j - 1, k - 1, t>>
           \* an unspecified source is given a value first
           un == {v \in Sources(ins0) : ~kn[v]}
       IN IF un # {} THEN LET v == CHOOSE v \in un : TRUE IN Prog(h, n - 1, [kn EXCEPT ![v] = TRUE], Codes, Text, Append(acc, InsTxt("lit", v, 1, 1, Text(Hash(g, 8), "lit"))))
          ELSE IF c \in Swapping /\ ~kn[j] THEN Prog(h, n - 1, kn, Codes, Text, Append(acc, InsTxt("inc", CHOOSE v \in Rg : kn[v], 1, 1, "")))
          ELSE Prog(h, n - 1, NextKnown(kn, ins0), Codes, Text, Append(acc, InsTxt(c, i, j, k, t)))
RECURSIVE Join(_, _)
Join(s, n) == IF n = Len(s) THEN s[n] ELSE s[n] \o ";" \o Join(s, n + 1)
AllKnown == [v \in Rg |-> TRUE]
=============================================================================
