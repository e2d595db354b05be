----------------------------- MODULE MappingEnv -----------------------------
(***************************************************************************)
(* The mapper among the optimiser's updates.  Poses are positions on a     *)
(* line here; corrections move any of the earlier ones.  Model-checked     *)
(* (MappingMC.cfg), and simulated (MappingGen*.cfg) for the histories that *)
(* are played to the real mapper.                                          *)
(***************************************************************************)
EXTENDS Mapping, TLC, Json, IOUtils
CONSTANTS MaxScan, Span, Threshold, N, Gen, MaxOps, Past
VARIABLES path, keys, judged, hist, nops
vars == <<path, keys, judged, hist, nops>>
Init == path = <<>> /\ keys = <<>> /\ judged = <<>> /\ hist = <<>> /\ nops = 0
Far(a, b) == a - b > Threshold \/ b - a > Threshold
Poses(p) == [i \in DOMAIN p |-> [t |-> i, pose |-> p[i]]]
\* the optimiser moves some poses and adds one; the scan of that one arrives
Update(p) == LET k == Len(p)
                 fixed == Corrected(keys, Poses(SubSeq(p, 1, k - 1)))
                 j == Joins(fixed, p[k], Far)
             IN /\ path' = p
                /\ keys' = (IF j THEN Append(fixed, [t |-> k, pose |-> p[k], scan |-> k]) ELSE fixed)
                /\ judged' = Append(judged, [key |-> j, near |-> IF fixed = <<>> THEN 0 ELSE fixed[Len(fixed)].pose - p[k]])
Step == Len(path) < MaxScan /\ nops' = 0 /\ hist' = <<>> /\ \E q \in [1..(Len(path) + 1) -> Span] : (\A i \in DOMAIN path : q[i] = path[i] \/ i >= Len(path) - 1) /\ Update(q)
\* ---- generated histories
Op(r) == hist' = Append(hist, r)
Rnd(n) == RandomElement(1..(n + 0 * nops))
GenStep == nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<path, keys, judged>> /\
   \/ \E n \in 1..8 : Op([op |-> "upd", far |-> Rnd(10), fix |-> Rnd(6) - 1])
   \/ Op([op |-> "map"]) \/ Op([op |-> "graph"])
   \/ Rnd(4) = 1 /\ Op([op |-> "bad", k |-> Rnd(3)])
Write == Gen /\ nops = MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<path, keys, judged, hist>>
         /\ LET r == Serialize(ToJson(<<[op |-> "cfg", past |-> Past, n |-> N, s |-> RandomElement(1..(1000000 + nops))]>> \o hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]) IN r.exitValue = 0
Next == (IF Gen THEN GenStep ELSE Step) \/ Write
Spec == Init /\ [][Next]_vars

\* ---- what the properties say
OncePerScan == \A i, j \in DOMAIN keys : i < j => keys[i].t < keys[j].t
FollowsCorrections == \A i \in DOMAIN keys : keys[i].pose = path[keys[i].t] /\ keys[i].scan = keys[i].t
FirstIsKey == path # <<>> => keys # <<>> /\ keys[1].t = 1
NothingMissed == \A k \in DOMAIN judged : judged[k].key = (\E i \in DOMAIN keys : keys[i].t = k)
                                          /\ (~judged[k].key => judged[k].near <= Threshold /\ -judged[k].near <= Threshold)
SomeNearest == LET Near(i, j) == (keys[i].pose - path[Len(path)]) * (keys[i].pose - path[Len(path)]) <= (keys[j].pose - path[Len(path)]) * (keys[j].pose - path[Len(path)])
               IN path # <<>> => \E S \in SUBSET (1..Len(keys)) : IsNearest(keys, S, N, Near)
RecentIsLatest == \A i \in Recent(keys, N), j \in (1..Len(keys)) \ Recent(keys, N) : keys[j].t < keys[i].t
=============================================================================
