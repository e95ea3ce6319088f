------------------------------ MODULE TextOut ------------------------------
(***************************************************************************)
(* The characters the number type writes to a stream, as a function of the *)
(* value and the stream's format state                                     *)
(*   f = [fix, sci, point, pos, upper, left : BOOLEAN,                     *)
(*        prec, width : Int, fill : a character]                           *)
(* M is the number of digits the type can print (max_digits10).            *)
(*                                                                         *)
(* Digits asked for beyond M+1 (scientific, fixed) or M (general) are      *)
(* written as zeros.  A precision of zero or less counts as the default,   *)
(* six.  The general format is decided by the exponent before rounding:    *)
(* fixed from 10^-4 up to below 10^min(D, max(prec, 6)), D = digits10.     *)
(* The exponent has a multiple of three digits.                            *)
(***************************************************************************)
EXTENDS EFloatValue
RECURSIVE Rpt(_, _)
Rpt(c, n) == IF n <= 0 THEN "" ELSE IF n >= 32 THEN c \o c \o c \o c \o c \o c \o c \o c \o c \o c \o c \o c \o c \o c \o c \o c \o Rpt(c, n - 16) ELSE c \o Rpt(c, n - 1)
ExpStr(e, upper) == LET d == Str(BAbs(e)) k == Len(d) % 3
                    IN (IF upper THEN "E" ELSE "e") \o (IF e \prec 0 THEN "-" ELSE "+") \o (IF k = 0 THEN "" ELSE Rpt("0", 3 - k)) \o d
RECURSIVE Trim(_)
Trim(s) == IF Len(s) > 0 /\ SubSeq(s, Len(s), Len(s)) = "0" THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LeadZ(_)
LeadZ(s) == IF Len(s) > 0 /\ SubSeq(s, 1, 1) = "0" THEN 1 + LeadZ(SubSeq(s, 2, Len(s))) ELSE 0
EndsDot(s) == SubSeq(s, Len(s), Len(s)) = "."
DropDot(s) == IF EndsDot(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Pad(s, f) == LET n == f.width - Len(s) IN IF n <= 0 THEN s ELSE IF f.left THEN s \o Rpt(f.fill, n) ELSE Rpt(f.fill, n) \o s

\* the general format with showpoint is filled up with zeros to P digits
Fill(s, P) == \* s contains a point
  IF Len(s) >= 2 /\ SubSeq(s, 1, 2) = "0."
  THEN LET t == SubSeq(s, 3, Len(s)) IN s \o Rpt("0", P - (Len(t) - LeadZ(t)))
  ELSE s \o Rpt("0", P - (Len(s) - 1))
\* last manipulations of a body with a point
Finish(s, f, P, gen) == LET t == IF gen THEN Trim(s) ELSE s
                        IN IF f.point THEN (IF gen THEN Fill(t, P) ELSE t) ELSE DropDot(t)

\* q: n digits (n >= 1), the first has weight 10^E
SciBody(q, E, f, P, gen) == LET t == q \o Rpt("0", P - (Len(q) - 1))
                            IN Finish(SubSeq(t, 1, 1) \o "." \o SubSeq(t, 2, Len(t)), f, P, gen) \o ExpStr(E, f.upper)
FixBody(q, E, f, P, gen) ==
  LET s == IF E < 0 THEN LET z == Rpt("0", 0 - E - 1) \o q IN "0." \o z \o Rpt("0", P - Len(z))
           ELSE LET t == q \o Rpt("0", E + 1 - Len(q))
                    d == SubSeq(t, E + 2, Len(t))
                IN SubSeq(t, 1, E + 1) \o "." \o d \o Rpt("0", P - Len(d))
  IN Finish(s, f, P, gen)

\* the (few) admissible roundings of |x| to a multiple of 10^u: within half a unit and a trifle of x
Roundings(be, x, u, d) ==
  LET a == AbsV(x)
      q0 == IF (a.e -- u) \succeq 0 THEN a.m ** P10(a.e -- u) ELSE IF Mag(a) \prec (u -- 1) THEN 0 ELSE a.m // P10(u -- a.e)
      \* (GMP converts through truncated limbs: just below a whole unit, or just above half a unit, it may go the other way)
      tiny == Fin(1, u -- 10)
      okg(q) == be = "gmp" /\ (LET b == Sub(Fin(q ++ 1, u), a) IN Le(AbsV(b), tiny) \/ Le(AbsV(Sub(Mul(Int2V(2), AbsV(Sub(a, Fin(q, u)))), Fin(1, u))), tiny))
      ok(q) == okg(q) \/ LET dd == Sub(a, Fin(q, u)) IN IsZero(dd) \/ Le(Mul(Int2V(2), AbsV(dd)), Add(Fin(1, u), Shift(a, 0 - d)))
  IN SelectSeq(IF be = "gmp" /\ q0 \succ 0 THEN <<q0 -- 1, q0, q0 ++ 1>> ELSE <<q0, q0 ++ 1>>, ok)

\* the texts (without sign and padding) for a finite value
Bodies(be, x, f, M, D) ==
  LET P == IF f.prec <= 0 THEN 6 ELSE f.prec
      E0 == IF IsZero(x) THEN 0 ELSE Mag(x) -- 1
      gen == ~f.fix /\ ~f.sci
      bound == BMin(D, BMax(P, 6))
      sci == f.sci \/ (gen /\ (E0 \prec (0 - 4) \/ E0 \succeq bound))
      n0 == IF sci THEN BMin(M + 1, P + 1) ELSE BMin(M + 1, BMax(0, E0 ++ 1 ++ P))
      n == IF gen THEN BMin(P, M) ELSE n0
  IN IF IsZero(x) THEN << IF sci THEN SciBody("0", 0, f, P, gen) ELSE FixBody("0", 0, f, P, gen) >>
     ELSE LET u == IF n = 0 /\ ~sci THEN 0 - P ELSE E0 ++ 1 -- n         \* the weight of the last digit
              c == Roundings(be, x, u, IF n = 0 THEN M + 1 ELSE M + 20)
              txt(q) == IF q \doteq 0 THEN FixBody("0", 0, f, P, gen)
                        ELSE LET s == Str(q) IN IF sci THEN SciBody(s, u ++ Len(s) -- 1, f, P, gen) ELSE FixBody(s, u ++ Len(s) -- 1, f, P, gen)
              \* rounding up to the next power of ten keeps n digits
              fixcut(q) == LET s == Str(q) IN IF n >= 1 /\ Len(s) > n THEN (IF sci THEN SciBody(SubSeq(s, 1, n), E0 ++ 1, f, P, gen) ELSE FixBody(SubSeq(s, 1, n), E0 ++ 1, f, P, gen)) ELSE txt(q)
              p == Fin(1, E0)
              nines == Str(P10(n) -- 1)
              extra == IF be = "gmp" /\ n >= 1 /\ Le(Sub(AbsV(x), p), Fin(1, u -- 11))
                       THEN << IF sci THEN SciBody(nines, E0 -- 1, f, P, gen) ELSE FixBody(nines, E0 -- 1, f, P, gen) >> ELSE <<>>
          IN [i \in 1..Len(c) |-> fixcut(c[i])] \o extra

\* all texts the specification allows for x
Texts(be, x, f, M, D) ==
  IF IsNaN(x) THEN << Pad(IF f.upper THEN "NAN" ELSE "nan", f) >>
  ELSE IF IsInf(x) THEN << Pad((IF x.s = 1 THEN "-" ELSE IF f.pos THEN "+" ELSE "") \o (IF f.upper THEN "INF" ELSE "inf"), f) >>
  ELSE LET sg == IF Sign(x) = -1 THEN "-" ELSE IF f.pos THEN "+" ELSE ""
           b == Bodies(be, x, f, M, D)
       IN [i \in 1..Len(b) |-> Pad(sg \o b[i], f)]

HasCh(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c
Format(fl, prec, width, fill) == [fix |-> HasCh(fl, "f"), sci |-> HasCh(fl, "s"), point |-> HasCh(fl, "p"), pos |-> HasCh(fl, "+"), upper |-> HasCh(fl, "u"), left |-> HasCh(fl, "l"),
                                  prec |-> prec, width |-> width, fill |-> fill]
=============================================================================
