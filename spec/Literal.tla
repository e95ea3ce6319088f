------------------------------- MODULE Literal -------------------------------
(***************************************************************************)
(* The value denoted by a decimal literal                                  *)
(*     [sign] digits [. digits] [e [sign] digits]                          *)
(* (at least one digit in front of the exponent).                          *)
(***************************************************************************)
EXTENDS EFloatValue
RECURSIVE FindAny(_, _, _)
\* the first position from i on where s has one of the characters in C; Len(s)+1 if none
FindAny(s, C, i) == IF i > Len(s) THEN i ELSE IF SubSeq(s, i, i) \in C THEN i ELSE FindAny(s, C, i + 1)
LitValue(s0) ==
  LET neg == Len(s0) > 0 /\ SubSeq(s0, 1, 1) = "-"
      s   == IF Len(s0) > 0 /\ SubSeq(s0, 1, 1) \in {"-", "+"} THEN SubSeq(s0, 2, Len(s0)) ELSE s0
      pe  == FindAny(s, {"e", "E"}, 1)
      ms  == SubSeq(s, 1, pe - 1)
      ex  == IF pe > Len(s) THEN 0 ELSE Dec(SubSeq(s, pe + 1, Len(s)))
      pd  == FindAny(ms, {"."}, 1)
      ip  == SubSeq(ms, 1, pd - 1)
      fp  == SubSeq(ms, pd + 1, Len(ms))
      m   == Dec("0" \o ip \o fp)
  IN Fin(IF neg THEN 0 -- m ELSE m, ex -- Len(fp))
=============================================================================
