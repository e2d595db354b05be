-------------------------------- MODULE Wait ---------------------------------
(***************************************************************************)
(* Waiting for a condition under a lock, which is how every callback of    *)
(* the nodes waits: take the lock (or come with it), and while the process *)
(* runs and the condition asks to wait, give the lock away for a while.    *)
(* One step per thing another thread can see.  The process may be asked to *)
(* stop at any point.  Model-checked; also simulated for the calls and     *)
(* orders that are played to the real function.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Gen, MaxOps
VARIABLES pc, leave, cond, lock, ok, res, hist, nops
vars == <<pc, leave, cond, lock, ok, res, hist, nops>>
T == 1..N
Init == /\ pc = [t \in T |-> "out"] /\ leave \in [T -> BOOLEAN] /\ cond \in [T -> BOOLEAN] /\ lock = 0 /\ ok = TRUE /\ res = [t \in T |-> "none"] /\ hist = <<>> /\ nops = 0
At(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
\* whoever takes it, caller or function: the loop starts with the lock
Take(t) == lock = 0 /\ At(t, "out", "loop") /\ lock' = t /\ UNCHANGED <<leave, cond, ok, res>>
Look(t) == /\ pc[t] = "loop"
           /\ IF ok /\ cond[t] THEN At(t, "loop", "asleep") /\ lock' = 0 ELSE At(t, "loop", "leaving") /\ UNCHANGED lock
           /\ UNCHANGED <<leave, cond, ok, res>>
Wake(t) == lock = 0 /\ At(t, "asleep", "loop") /\ lock' = t /\ UNCHANGED <<leave, cond, ok, res>>
\* the answer and the lock go together, also when the process was stopped just now
Leave(t) == /\ At(t, "leaving", "back") /\ res' = [res EXCEPT ![t] = IF ok THEN "go" ELSE "stop"]
            /\ lock' = (IF ok /\ leave[t] THEN t ELSE 0) /\ UNCHANGED <<leave, cond, ok>>
\* the caller goes on under the lock, and gives it back
Done(t) == At(t, "back", "done") /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ UNCHANGED <<leave, cond, ok, res>>
Flip(t) == pc[t] \in {"out", "asleep"} /\ cond' = [cond EXCEPT ![t] = ~@] /\ UNCHANGED <<pc, leave, lock, ok, res>>
Stop == ok /\ ok' = FALSE /\ UNCHANGED <<pc, leave, cond, lock, res>>
Run(t) == Take(t) \/ Look(t) \/ Wake(t) \/ Leave(t) \/ Done(t)
Step == ((\E t \in T : Run(t) \/ Flip(t)) \/ Stop) /\ UNCHANGED <<hist, nops>>
\* ---- scenarios
Rnd(n) == RandomElement(1..(n + 0 * nops))
GenStep == /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<pc, leave, lock, res>>
           /\ \/ \E t \in {Rnd(N)} : hist' = Append(hist, [op |-> "call", t |-> t, al |-> Rnd(2) = 1, lv |-> Rnd(2) = 1, wait |-> Rnd(3) # 1]) /\ UNCHANGED <<cond, ok>>
              \/ \E t \in {Rnd(N)} : cond' = [cond EXCEPT ![t] = ~@] /\ hist' = Append(hist, [op |-> "flip", t |-> t]) /\ UNCHANGED ok
              \/ \E k \in 1..3 : hist' = Append(hist, [op |-> "run", n |-> Rnd(9)]) /\ UNCHANGED <<cond, ok>>
              \/ ok /\ Rnd(12) = 1 /\ ok' = FALSE /\ hist' = Append(hist, [op |-> "stop"]) /\ UNCHANGED cond
Write == Gen /\ nops = MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<pc, leave, cond, lock, ok, res, hist>>
         /\ LET r == Serialize(ToJson(<<[op |-> "cfg", s |-> Rnd(1000000)]>> \o hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]) IN r.exitValue = 0
Next == (IF Gen THEN GenStep ELSE Step) \/ Write
Spec == Init /\ [][Next]_vars
\* every callback is given time again and again; one that stands in front of the lock gets it now and then
Fair == Spec /\ \A t \in T : WF_vars(Look(t) /\ UNCHANGED <<hist, nops>>) /\ WF_vars(Leave(t) /\ UNCHANGED <<hist, nops>>) /\ WF_vars(Done(t) /\ UNCHANGED <<hist, nops>>)
                             /\ SF_vars(Take(t) /\ UNCHANGED <<hist, nops>>) /\ SF_vars(Wake(t) /\ UNCHANGED <<hist, nops>>)
\* ---- what the property says
Inside(t) == pc[t] \in {"loop", "leaving"} \/ (pc[t] = "back" /\ res[t] = "go" /\ leave[t])
Exclusive == \A t \in T : (lock = t) = Inside(t)
Answer == \A t \in T : /\ (res[t] = "stop" => ~ok)
                       /\ (pc[t] = "back" => (lock = t) = (res[t] = "go" /\ leave[t]))
Released == (\A t \in T : pc[t] = "done") => lock = 0
Stops == (~ok) ~> (\A t \in T : pc[t] = "done")
=============================================================================
