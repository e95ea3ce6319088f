---------------------------- MODULE ArrayMachine ----------------------------
(***************************************************************************)
(* A machine of four sequences.  A state is the sequences and which of     *)
(* them were left behind by a move (a valid sequence, but an unspecified   *)
(* one, until it is assigned).  fx = 0: the sequences have any length;     *)
(* fx > 0: all of them have the length fx.  An instruction is              *)
(* <<code, i, j, n, v>>, with i, j counted from zero.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
NA == 4
Ra == 1..NA
Unknown == <<-1, -1, -1>>               \* stands for the unspecified contents
Pad(s, fx) == IF fx = 0 THEN s ELSE [k \in 1..fx |-> IF k <= Len(s) THEN s[k] ELSE 0]
Copies(n, v) == [k \in 1..n |-> v]
Up(n, v) == [k \in 1..n |-> v + k - 1]
Cutoff(fx, n) == IF n > 3 THEN (IF fx = 0 THEN 3 ELSE 7) ELSE n
Start(fx) == [arr |-> [i \in Ra |-> Pad(Copies(i - 1, i - 1), fx)], kn |-> [i \in Ra |-> TRUE]]
Sets == {"set", "sat", "sda", "frt", "bck"}
\* does the instruction keep its contract in this state
Enabled(st, ins) ==
  LET c == ins[1]
      i == ins[2] + 1
      j == ins[3] + 1
      n == ins[4]
      len == Len(st.arr[i])
  IN CASE c \in {"new", "lst", "rng"} -> TRUE
       [] c \in {"cpc", "cpa", "cpt", "mva", "mvc"} -> st.kn[j]
       [] c \in {"swm", "swf"} -> TRUE
       [] c \in {"swr"} -> TRUE
       [] c \in {"fil", "ite", "rev", "rvs"} -> st.kn[i]
       [] c \in {"set", "sda"} -> st.kn[i] /\ n < len
       [] c \in {"sat", "frt", "bck", "obs"} -> st.kn[i] /\ len > 0
       [] c = "cmp" -> st.kn[i] /\ st.kn[j]
RECURSIVE LexLess(_, _)
LexLess(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE ELSE IF s[1] # t[1] THEN s[1] < t[1] ELSE LexLess(Tail(s), Tail(t))
B(b) == IF b THEN 1 ELSE 0
Turned(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Extra(st, ins) ==
  LET c == ins[1]
      a == st.arr[ins[2] + 1]
      b == st.arr[ins[3] + 1]
      n == ins[4]
      len == Len(a)
  IN CASE c = "cmp" -> <<B(a = b), B(a # b), B(LexLess(a, b)), B(LexLess(b, a)), B(~LexLess(b, a)), B(~LexLess(a, b))>>
       [] c = "obs" -> <<a[1], a[len], IF n < len THEN a[n + 1] ELSE a[1], a[(n % len) + 1], len, len, 0, a[(n % len) + 1]>>
       [] c = "rvs" -> Turned(a)
       [] OTHER -> <<>>
Apply(fx, st, ins) ==
  LET c == ins[1]
      i == ins[2] + 1
      j == ins[3] + 1
      n == ins[4]
      v == ins[5]
      a == st.arr[i]
      len == Len(a)
      give(s) == [arr |-> [st.arr EXCEPT ![i] = s], kn |-> [st.kn EXCEPT ![i] = TRUE]]
      put(k) == [st EXCEPT !.arr[i][k] = v]
      made == IF fx > 0 /\ n > fx THEN Copies(fx, v) ELSE Pad(Copies(n, v), fx)
  IN CASE c = "new" -> give(made)
       [] c \in {"lst", "rng"} -> give(Pad(Up(IF c = "lst" \/ fx > 0 THEN Cutoff(fx, n) ELSE n, v), fx))
       [] c \in {"cpc", "cpa", "cpt"} -> give(st.arr[j])
       [] c \in {"mva", "mvc"} -> IF i = j THEN st
                                  ELSE [arr |-> [st.arr EXCEPT ![i] = st.arr[j], ![j] = Unknown], kn |-> [st.kn EXCEPT ![i] = TRUE, ![j] = FALSE]]
       [] c \in {"swm", "swf"} -> [arr |-> [st.arr EXCEPT ![i] = st.arr[j], ![j] = st.arr[i]], kn |-> [st.kn EXCEPT ![i] = st.kn[j], ![j] = st.kn[i]]]
       [] c = "swr" -> give(made)
       [] c = "fil" -> [st EXCEPT !.arr[i] = Copies(len, v)]
       [] c \in {"set", "sda"} -> put(n + 1)
       [] c = "sat" -> put(IF n < len THEN n + 1 ELSE 1)
       [] c = "frt" -> put(1)
       [] c = "bck" -> put(len)
       [] c = "ite" -> [st EXCEPT !.arr[i] = Up(len, v)]
       [] c = "rev" -> [st EXCEPT !.arr[i] = Turned(Up(len, v))]
       [] c \in {"cmp", "obs", "rvs"} -> st
Codes == <<"new", "lst", "rng", "cpc", "cpa", "cpt", "mva", "mvc", "swm", "swf", "swr", "fil", "set", "sat", "sda", "frt", "bck", "ite", "rev", "cmp", "obs", "rvs">>
=============================================================================
