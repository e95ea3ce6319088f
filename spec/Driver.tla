------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* Trace validation.  The recorded behaviour of the implementation is a    *)
(* sequence of events; it is a behaviour of the specification iff every    *)
(* event is one the specification allows (Accept).  The chain is cut into  *)
(* chunks so that TLC's workers check them in parallel; a rejected event   *)
(* is reported and checking continues.  An event that ended in a crash, a  *)
(* timeout or an exception (ev.x) is never allowed.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils, Json, SafeEval
VARIABLE pos
Events == ndJsonDeserialize(IOEnv.VERIF_EVENTS)
NEv == Len(Events)
Chunk == 40
Verdict(Accept(_), ev) == IF ev.x # "" THEN ev.x ELSE Safe(Accept(ev))
Init == pos \in {1 + (c - 1) * Chunk : c \in 1..((NEv + Chunk - 1) \div Chunk)}
Validate(Accept(_)) ==
        /\ pos <= NEv
        /\ LET v == Verdict(Accept, Events[pos])
           IN IF ToString(v) = "TRUE" THEN TRUE ELSE PrintT("REJECT " \o ToString(pos) \o " " \o ToString(v))
        /\ pos % Chunk # 0
        /\ pos' = pos + 1
=============================================================================
