--------------------------- MODULE RegistrationEnv ---------------------------
(***************************************************************************)
(* The registration node among its inputs: scans and guesses are paired by *)
(* stamp and matched scan to scan in one callback; the results queue up    *)
(* for the map callback, which takes a map, waits for a result, takes it   *)
(* and publishes.  Model-checked (RegistrationMC.cfg), and simulated       *)
(* (RegistrationGen.cfg) for the arrival orders played to the real node.   *)
(***************************************************************************)
EXTENDS Registration, TLC, Json, IOUtils
CONSTANTS Max, Refine, Gen, MaxOps
VARIABLES sent, got, prev, queue, held, out, hist, nops
vars == <<sent, got, prev, queue, held, out, hist, nops>>
Topics == {"scan", "guess", "map"}
Init == sent = [t \in Topics |-> 0] /\ got = [t \in Topics |-> 0] /\ prev = 0 /\ queue = <<>> /\ held = 0 /\ out = <<>> /\ hist = <<>> /\ nops = 0
Op(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
\* the map around a scan is made from that scan
Send(t) == sent[t] < Max /\ (t = "map" => sent["map"] < sent["scan"]) /\ sent' = [sent EXCEPT ![t] = @ + 1] /\ UNCHANGED <<got, prev, queue, held, out>>
\* a callback of one of the two synchronised topics; the later one of a pair runs the matching
Pair(t) == t # "map" /\ got[t] < sent[t] /\ got' = [got EXCEPT ![t] = @ + 1] /\ UNCHANGED <<sent, held>> /\
   LET k == got[t] + 1 o == IF t = "scan" THEN got["guess"] ELSE got["scan"] IN
   IF o < k THEN UNCHANGED <<prev, queue, out>>
   ELSE /\ prev' = k
        /\ IF prev = 0 THEN UNCHANGED <<queue, out>>
           ELSE LET m == [scan |-> k, prev |-> prev, guess |-> k, map |-> 0] IN
                IF Refine THEN queue' = Append(queue, m) /\ UNCHANGED out ELSE out' = Append(out, m) /\ UNCHANGED queue
TakeMap == Refine /\ held = 0 /\ got["map"] < sent["map"] /\ got' = [got EXCEPT !["map"] = @ + 1] /\ held' = got["map"] + 1 /\ UNCHANGED <<sent, prev, queue, out>>
Refined == held # 0 /\ queue # <<>> /\ out' = Append(out, [queue[1] EXCEPT !.map = held]) /\ queue' = Tail(queue) /\ held' = 0 /\ UNCHANGED <<sent, got, prev>>
Node == (\E t \in Topics : Pair(t)) \/ TakeMap \/ Refined
Step == ((\E t \in Topics : Send(t)) \/ Node) /\ UNCHANGED <<hist, nops>>
Rnd(n) == RandomElement(1..(n + 0 * nops))
\* topics drift apart, but not further than their queues reach
Slow(t) == \A u \in Topics : sent[t] <= sent[u] + 5
GenStep == /\ nops < MaxOps /\ nops' = nops + 1
           /\ \/ \E n \in 1..3, t \in Topics : Slow(t) /\ Send(t) /\ Op([op |-> t, k |-> Rnd(6)])
              \/ \E n \in 1..5 : UNCHANGED <<sent, got, prev, queue, held, out>> /\ Op([op |-> "run", n |-> Rnd(8)])
Write == Gen /\ nops = MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<sent, got, prev, queue, held, out, hist>>
         /\ LET r == Serialize(ToJson(<<[op |-> "cfg", refine |-> Refine, s |-> RandomElement(1..(1000000 + nops))]>> \o hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]) IN r.exitValue = 0
Next == (IF Gen THEN GenStep ELSE Step) \/ Write
Spec == Init /\ [][Next]_vars

\* ---- what the property says
Paired == \A k \in DOMAIN out : out[k] = Motion(k, Refine)
NoneLeft == ~ENABLED Node => Len(out) = Possible(sent["scan"], sent["guess"], sent["map"], Refine)
=============================================================================
