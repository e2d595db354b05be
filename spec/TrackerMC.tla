------------------------------ MODULE TrackerMC ------------------------------
(***************************************************************************)
(* The tracker over every outcome of its parts on a small image, and the   *)
(* scenarios for the harness: per frame, what happens to each tracked      *)
(* feature and what is found anew.                                         *)
(***************************************************************************)
EXTENDS Tracker, TLC, Json, IOUtils
CONSTANTS Frames, Xs, Ys, MaxExt, Gen, MaxOps
VARIABLES tracks, next, gone, n, hist, nops
vars == <<tracks, next, gone, n, hist, nops>>
Cfg == [roi |-> <<>>, near |-> 1, v |-> 0, dist |-> <<>>, mode |-> "table", limit |-> 1, rn |-> 1, rd |-> 2]
P == Xs \X Ys
Sides(s) == {IF s = 1 THEN tracks[i].l ELSE tracks[i].r : i \in 1..Len(tracks)}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* every function from points to outcomes (lost, or a place)
Outs(S) == [S -> {<<FALSE, 0, 0>>} \cup {<<TRUE, p[1], p[2]>> : p \in P}]
FlowOf(F) == LET s == SeqOf(DOMAIN F) IN [i \in 1..Len(s) |-> <<s[i][1], s[i][2], F[s[i]][1], F[s[i]][2], F[s[i]][3]>>]
Found1(s) == {q \in UNION {[1..k -> P] : k \in 0..MaxExt} : TRUE}
Init == tracks = <<>> /\ next = 0 /\ gone = {} /\ n = 0 /\ hist = <<>> /\ nops = 0
Frame == /\ ~Gen /\ n < Frames /\ n' = n + 1
         /\ \E a \in Outs(Sides(1)), b \in Outs(Sides(2)), e1 \in Found1(1), e2 \in Found1(2) :
            \E m \in [1..Len(e1) -> 0..Len(e2)] :
            LET f == [ext |-> << [i \in 1..Len(e1) |-> <<e1[i][1], e1[i][2], i>>], [i \in 1..Len(e2) |-> <<e2[i][1], e2[i][2], i>>] >>,
                      flow |-> <<FlowOf(a), FlowOf(b)>>, pair |-> [i \in 1..Len(e1) |-> <<i, m[i], 0>>], cost |-> <<>>]
                s == Step(Cfg, tracks, next, f)
            IN /\ tracks' = s.tracks /\ next' = s.next
               /\ gone' = gone \cup ({tracks[i].id : i \in 1..Len(tracks)} \ {s.tracks[i].id : i \in 1..Len(s.tracks)})
         /\ UNCHANGED <<hist, nops>>
\* ---- scenarios: outcomes by number, made concrete by the harness
Rnd(k) == RandomElement(1..(k + 0 * nops))
GenFrame == /\ Gen /\ nops < MaxOps /\ nops' = nops + 1
            /\ \E s \in {Rnd(5)} :       \* mostly kept, mixed, everything lost, nothing new, much new
               hist' = Append(hist, [op |-> "frame", x |-> Rnd(12),
                   old |-> [i \in 1..12 |-> CASE s = 1 -> IF Rnd(4 + i - i) = 1 THEN Rnd(9) ELSE 0 [] s = 3 -> 1 + Rnd(3) - 1 [] OTHER -> IF Rnd(2 + i - i) = 1 THEN 0 ELSE Rnd(9)],
                   new |-> [i \in 1..(IF s = 4 THEN 0 ELSE IF s = 5 THEN 8 ELSE Rnd(5) - 1) |-> IF Rnd(2 + i - i) = 1 THEN 0 ELSE Rnd(13)]])
            /\ UNCHANGED <<tracks, next, gone, n>>
Write == Gen /\ nops = MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<tracks, next, gone, n, hist>>
         /\ LET r == Serialize(ToJson(<<[op |-> "cfg", s |-> Rnd(1000000)]>> \o hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]) IN r.exitValue = 0
Next == Frame \/ GenFrame \/ Write
Spec == Init /\ [][Next]_vars
\* ---- what the property says
Ids == {tracks[i].id : i \in 1..Len(tracks)}
Unique == Cardinality(Ids) = Len(tracks)
Ordered == \A i \in 1..Len(tracks) - 1 : tracks[i].id < tracks[i + 1].id
NeverReused == Ids \cap gone = {} /\ \A i \in Ids \cup gone : i < next
Geometry == \A i \in 1..Len(tracks) : Stereo(Cfg, tracks[i].l, tracks[i].r)
\* an identity keeps naming the same key points' features; only identities of this frame or new ones are reported
Life == [][\A i \in 1..Len(tracks') : IF tracks'[i].id \in Ids THEN \E j \in 1..Len(tracks) : tracks[j].id = tracks'[i].id /\ tracks[j].lc = tracks'[i].lc /\ tracks[j].rc = tracks'[i].rc
                                      ELSE tracks'[i].id >= next]_vars
=============================================================================
