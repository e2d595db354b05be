------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* What every trace specification shares.  A trace is the sequence of      *)
(* events the harness recorded from the real code (one JSON record per     *)
(* line); l is the position of the next event to explain.  The trace is    *)
(* accepted when every event was explained by an action of the             *)
(* specification, in order.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
More == l <= Len(Trace)
IsEvent(op) == /\ l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
\* A named conjunct: says on the output which requirement an event broke.
Ck(msg, cond) == IF cond THEN TRUE ELSE /\ PrintT(<<"REFUSED", l, Trace[l].op, msg>>) /\ FALSE
Has(e, f) == f \in DOMAIN e
Accepted == LET d == TLCGet("stats").diameter - 1
            IN  PrintT(<<"EXPLAINED", d, Len(Trace)>>) /\ d = Len(Trace)
=============================================================================
