------------------------------ MODULE WaitTrace ------------------------------
(***************************************************************************)
(* P26, the waiting function itself: recorded calls.  What a caller sees   *)
(* has to be a behaviour of Wait: the condition is looked at under the     *)
(* lock, an answer to go on means it was just found to hold, an answer to  *)
(* stop means the process was asked to, and the lock goes with the answer. *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES stop, in, last, now
vars == <<l, stop, in, last, now>>
\* in: the callers inside.  last: what the caller last saw ("none" before).  now: what its condition says now
Init == l = 1 /\ stop = FALSE /\ in = {} /\ last = <<>> /\ now = <<>>
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Start == IsEvent("wait") /\ stop' = FALSE /\ in' = {} /\ last' = <<>> /\ now' = <<>>
Call == IsEvent("call") /\ in' = in \union {E} /\ last' = Put(last, E.id, "none") /\ UNCHANGED <<stop, now>>
Me == CHOOSE c \in in : c.id = E.id
Look == IsEvent("look") /\ Ck("the condition is looked at under the lock", E.held)
        /\ last' = Put(last, E.id, IF E.wait THEN "wait" ELSE "go") /\ now' = Put(now, E.id, E.wait) /\ UNCHANGED <<stop, in>>
Flip == IsEvent("flip") /\ now' = Put(now, E.id, E.wait) /\ UNCHANGED <<stop, in, last>>
Back == /\ IsEvent("back") /\ UNCHANGED <<stop, last, now>> /\ in' = in \ {Me}
        /\ Ck("going on only when the condition was found to hold", E.go => last[E.id] = "go")
        /\ Ck("giving up only when the process is to stop", ~E.go => stop)
        /\ Ck("the lock is kept exactly when asked for and going on", E.held = (E.go /\ Me.lv))
Stop == IsEvent("stop") /\ stop' = TRUE /\ UNCHANGED <<in, last, now>>
\* once nothing moves, only those whose condition asks to wait are left
Rest == IsEvent("rest") /\ UNCHANGED <<stop, in, last, now>>
        /\ Ck("whoever is left has to wait", \A i \in DOMAIN E.left : \E c \in in : c.id = E.left[i] /\ ~stop /\ E.left[i] \in DOMAIN now /\ now[E.left[i]])
Stopped == IsEvent("stopped") /\ UNCHANGED <<stop, in, last, now>> /\ Ck("every waiting callback returns", E.left = 0 /\ in = {})
           /\ Ck("and leaves no lock behind", E.locked = 0) /\ Ck("and gives back only what it holds", E.misused = 0)
Free == IsEvent("lock") /\ Ck("the lock is free", E.free) /\ UNCHANGED <<stop, in, last, now>>
End == IsEvent("end") /\ UNCHANGED <<stop, in, last, now>>
Next == Start \/ Call \/ Look \/ Flip \/ Back \/ Stop \/ Rest \/ Stopped \/ Free \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
