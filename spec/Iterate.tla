------------------------------- MODULE Iterate -------------------------------
(***************************************************************************)
(* Repetition.  The definition is the meaning; TLC evaluates it as a loop   *)
(* (java/tlc2/overrides/IterateOverrides.java).                             *)
(***************************************************************************)
LOCAL INSTANCE Integers
RECURSIVE Until(_, _, _)
\* s, step(s), step(step(s)), .. up to the first state that is done
Until(step(_), done(_), s) == IF done(s) THEN s ELSE Until(step, done, step(s))
RECURSIVE Times(_, _, _)
\* step applied n times
Times(step(_), n, s) == IF n <= 0 THEN s ELSE Times(step, n - 1, step(s))
=============================================================================
