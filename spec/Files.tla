------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* The file converter: clouds are saved from topics to files and loaded    *)
(* from files to topics.  Clouds are known by a number; 0 is none.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Topics, Paths,      \* path 0 has no known file type
          Clouds, Gen, MaxOps
VARIABLES topic,     \* topic -> the cloud last published on it
          file,      \* path -> the cloud in it
          n,         \* clouds that arrived so far
          was,       \* the step before: <<kind, topic, path, done, topics before, files before>>
          hist, wrote
vars == <<topic, file, n, was, hist, wrote>>
Init == /\ topic = [t \in Topics |-> 0] /\ file = [p \in Paths |-> 0] /\ n = 0 /\ hist = <<>> /\ wrote = FALSE
        /\ was = <<"start", 0, 0, FALSE, topic, file>>
\* what the operations do
CanSave(tp, t, p) == tp[t] # 0 /\ p # 0
CanLoad(fl, p) == fl[p] # 0
AfterSave(tp, fl, t, p) == IF CanSave(tp, t, p) THEN [fl EXCEPT ![p] = tp[t]] ELSE fl
AfterLoad(tp, fl, t, p) == IF CanLoad(fl, p) THEN [tp EXCEPT ![t] = fl[p]] ELSE tp

Note(o) == hist' = IF Gen THEN Append(hist, o) ELSE hist
Going == ~Gen \/ Len(hist) < MaxOps
Arrive(t) == /\ n < Clouds /\ Going /\ n' = n + 1 /\ topic' = [topic EXCEPT ![t] = n + 1] /\ file' = file
             /\ was' = <<"arrive", t, 0, TRUE, topic, file>> /\ Note([op |-> "arrive", t |-> t, p |-> 0])
Save(t, p) == /\ Going /\ file' = AfterSave(topic, file, t, p) /\ UNCHANGED <<topic, n>>
              /\ was' = <<"save", t, p, CanSave(topic, t, p), topic, file>> /\ Note([op |-> "save", t |-> t, p |-> p])
Load(t, p) == /\ Going /\ topic' = AfterLoad(topic, file, t, p) /\ UNCHANGED <<file, n>>
              /\ was' = <<"load", t, p, CanLoad(file, p), topic, file>> /\ Note([op |-> "load", t |-> t, p |-> p])
Write == /\ Gen /\ ~wrote /\ Len(hist) = MaxOps /\ wrote' = TRUE
         /\ Serialize(ToJson(hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
         /\ UNCHANGED <<topic, file, n, was, hist>>
Next == Write \/ (UNCHANGED wrote /\ \E t \in Topics : Arrive(t) \/ \E p \in Paths : Save(t, p) \/ Load(t, p))
Spec == Init /\ [][Next]_vars
TypeOK == (\A t \in Topics : topic[t] \in 0..n) /\ (\A p \in Paths : file[p] \in 0..n) /\ file[0] = 0
\* a refused request changes nothing; one that is done puts what was there where it was asked, and nothing else moves
Refused == was[1] \in {"save", "load"} /\ ~was[4] => topic = was[5] /\ file = was[6]
Done == /\ (was[1] = "save" /\ was[4] => topic = was[5] /\ \A p \in Paths : file[p] = IF p = was[3] THEN was[5][was[2]] ELSE was[6][p])
        /\ (was[1] = "load" /\ was[4] => file = was[6] /\ \A t \in Topics : topic[t] = IF t = was[2] THEN was[6][was[3]] ELSE was[5][t])
=============================================================================
