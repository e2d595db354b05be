------------------------------ MODULE GraphEnv ------------------------------
(***************************************************************************)
(* Histories of calls a back end may make, over the store of Graph.tla.    *)
(* Used twice: model-checked exhaustively for small bounds (GraphMC.cfg),  *)
(* and simulated to generate the call sequences that are then made on the  *)
(* real code (GraphGen.cfg).                                               *)
(* Ghosts: handedF / handedV how often each factor / value key reached the *)
(* optimiser, removed the value keys reported as removable, in order.      *)
(***************************************************************************)
EXTENDS Graph, TLC, Json, IOUtils
CONSTANTS MaxState, Ids, MaxOps, Windows, Gen,
   Mix          \* for generated histories: how often each kind of call is offered
VARIABLES g, hist, nops, handedF, handedV, removed, pkey
vars == <<g, hist, nops, handedF, handedV, removed, pkey>>
Last == IF \E k \in DOMAIN g.val : Kind(k) = "X" THEN MaxOf({k[2] : k \in {k \in DOMAIN g.val : Kind(k) = "X"}}) ELSE -1
Op(r) == hist' = IF Gen THEN Append(hist, r) ELSE hist
Rnd == IF Gen THEN RandomElement(1..(1000000 + nops)) ELSE 0
Init == g = Graph0 /\ hist = <<>> /\ nops = 0 /\ handedF = <<>> /\ handedV = <<>> /\ removed = <<>> /\ pkey = 0
Quiet == UNCHANGED <<handedF, handedV, removed>>
\* a new state: a value of each kind with its prior, then any of: motion from the previous state, IMU factor
NewState(between, imu) == LET k == Last + 1 IN
   /\ k <= MaxState /\ (k = 0 => ~between /\ ~imu)
   /\ LET g1 == SetState(SetState(SetState(g, "X", k, 0), "V", k, 0), "B", k, 0)
          g2 == AddFacs(g1, << [at |-> k, k |-> "priorX", keys |-> << <<"X", k>> >>, m |-> 0, n |-> 0],
                               [at |-> k, k |-> "priorV", keys |-> << <<"V", k>> >>, m |-> 0, n |-> 0],
                               [at |-> k, k |-> "priorB", keys |-> << <<"B", k>> >>, m |-> 0, n |-> 0] >>)
          g3 == IF between THEN AddFac(g2, k, "between", << <<"X", k - 1>>, <<"X", k>> >>, 0, 0) ELSE g2
          g4 == IF imu THEN AddFac(g3, k, "imu", << <<"X", k - 1>>, <<"V", k - 1>>, <<"X", k>>, <<"V", k>>, <<"B", k - 1>>, <<"B", k>> >>, 0, 0) ELSE g3
      IN g' = g4
   /\ Op([op |-> "state", k |-> k, between |-> between, imu |-> imu, s |-> Rnd]) /\ UNCHANGED pkey /\ Quiet
\* the barometer follows at its own pace, never ahead of the states
Baro(meas) == /\ pkey <= Last /\ pkey > g.marg /\ (pkey = 0 \/ <<"P", pkey - 1>> \in DOMAIN g.rem \/ pkey - 1 > g.marg)
   /\ LET g1 == IF meas THEN AddFac(g, pkey, "baro", << <<"X", pkey>>, <<"P", pkey>> >>, 0, 0) ELSE g
          g2 == IF pkey = 0 THEN AddFac(g1, 0, "priorP", << <<"P", 0>> >>, 0, 0) ELSE AddFac(g1, pkey, "bbias", << <<"P", pkey - 1>>, <<"P", pkey>> >>, 0, 0)
      IN g' = SetState(g2, "P", pkey, 0)
   /\ pkey' = pkey + 1 /\ Op([op |-> "baro", k |-> pkey, meas |-> meas, s |-> Rnd]) /\ Quiet
\* a feature frame: identities seen before only if still tracked from the previous frame
Seen == UNION {DOMAIN g.feats[k] : k \in DOMAIN g.feats}
Frame(k, ids) ==
   /\ k \in 0..Last /\ k > PrevFrame(g) /\ k > g.marg
   /\ LET old == IF DOMAIN g.feats = {} THEN {} ELSE DOMAIN g.feats[PrevFrame(g)] IN
      /\ ids \intersect Seen \subseteq old
      /\ (PrevFrame(g) <= g.marg => ids \intersect old = {})
   /\ g' = AddFeatures(g, k, [i \in ids |-> 0], [i \in ids |-> 0], 0)
   /\ Op([op |-> "frame", k |-> k, ids |-> SetToSeq(ids), s |-> Rnd]) /\ UNCHANGED pkey /\ Quiet
Count(f, S) == [x \in DOMAIN f \union S |-> (IF x \in DOMAIN f THEN f[x] ELSE 0) + (IF x \in S THEN 1 ELSE 0)]
\* the back end's window is wide enough: what is removed is not needed by anything still to be handed over
Unneeded(h, m) == \A i \in h.newf : \A j \in DOMAIN h.fac[i].keys : h.fac[i].keys[j] \notin Removable(h, m)
Report(h, m) == removed' = removed \o << Removable(h, m) >>
Optimise(m) ==
   /\ m \in 0..Last /\ m >= g.opt
   /\ LET h == Optimised(g, m, <<>>) IN
      /\ handedF' = Count(handedF, HandedFac(g, m)) /\ handedV' = Count(handedV, HandedVal(g, m))
      /\ IF AutoMarg(h) THEN Unneeded(h, h.opt - h.win) /\ g' = Marginalised(h, h.opt - h.win) /\ Report(h, h.opt - h.win) ELSE g' = h /\ UNCHANGED removed
   /\ Op([op |-> "optimise", k |-> m]) /\ UNCHANGED pkey
Marginalise(m) ==
   /\ m \in 0..(g.opt - 1) /\ Removable(g, m) \intersect g.new = {} /\ Unneeded(g, m)
   /\ g' = Marginalised(g, m) /\ Report(g, m) /\ Op([op |-> "marginalise", k |-> m]) /\ UNCHANGED <<handedF, handedV, pkey>>
\* 99: off
Window(x) == LET w == IF x = 99 THEN -1 ELSE x IN /\ g' = [g EXCEPT !.win = w] /\ g.win # w /\ Op([op |-> "window", w |-> w]) /\ UNCHANGED pkey /\ Quiet
Read == /\ Gen /\ Op([op |-> "read", s |-> Rnd]) /\ UNCHANGED <<g, pkey>> /\ Quiet
Change(kind, k) == /\ Gen /\ <<kind, k>> \in DOMAIN g.val /\ Op([op |-> "change", kind |-> kind, k |-> k, s |-> Rnd])
   /\ g' = SetState(g, kind, k, 0) /\ UNCHANGED pkey /\ Quiet
Step == \/ \E b, i \in BOOLEAN : NewState(b, i)
        \/ \E m \in BOOLEAN : Baro(m)
        \/ \E k \in 0..MaxState : \E ids \in SUBSET Ids : Frame(k, ids)
        \/ \E m \in 0..MaxState : Optimise(m) \/ Marginalise(m)
        \/ \E w \in Windows : Window(w)
        \/ Read \/ \E kind \in {"X", "V", "B", "P"}, k \in 0..MaxState : Change(kind, k)
\* a simulated history is written out when it is complete
Write == /\ Gen /\ nops = MaxOps
         /\ LET r == Serialize(ToJson(hist) \o "\n", IOEnv.SCEN_OUT, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]) IN r.exitValue = 0
         /\ nops' = nops + 1 /\ UNCHANGED <<g, hist, handedF, handedV, removed, pkey>>
\* generated histories: each kind of call with arguments picked at random
RandomSub(S) == {x \in S : RandomElement(1..3) > 1}
Pick(S, P(_)) == S # {} /\ \E x \in {RandomElement(S)} : P(x)
GenFrame == LET old == IF DOMAIN g.feats = {} \/ PrevFrame(g) <= g.marg THEN {} ELSE DOMAIN g.feats[PrevFrame(g)] IN
   Pick({k \in 0..Last : k > PrevFrame(g) /\ k > g.marg}, LAMBDA k :
      Pick({RandomSub(old) \union {x \in Ids \ Seen : RandomElement(1..4) = 1}}, LAMBDA ids : Frame(k, ids)))
GenStep == \/ \E n \in 1..Mix.state : Pick(BOOLEAN \X BOOLEAN, LAMBDA x : NewState(x[1], x[2]))
           \/ \E n \in 1..Mix.baro : Pick(BOOLEAN, Baro)
           \/ \E n \in 1..Mix.frame : GenFrame
           \/ \E n \in 1..Mix.optimise : Optimise(Last) \/ Pick(0..MaxState, Optimise)
           \/ \E n \in 1..Mix.marginalise : Pick(0..MaxState, Marginalise)
           \/ \E n \in 1..Mix.window : Pick(Windows, Window)
           \/ Read \/ \E n \in 1..Mix.change : Pick({"X", "V", "B", "P"} \X (0..MaxState), LAMBDA x : Change(x[1], x[2]))
Next == (nops < MaxOps /\ nops' = nops + 1 /\ (IF Gen THEN GenStep ELSE Step)) \/ Write
Spec == Init /\ [][Next]_vars

NoMix == [state |-> 0, baro |-> 0, frame |-> 0, optimise |-> 0, marginalise |-> 0, window |-> 0, change |-> 0]
MixOptimise == [state |-> 3, baro |-> 2, frame |-> 2, optimise |-> 3, marginalise |-> 0, window |-> 0, change |-> 2]
MixMarginalise == [state |-> 3, baro |-> 1, frame |-> 2, optimise |-> 2, marginalise |-> 2, window |-> 1, change |-> 0]
MixFrames == [state |-> 3, baro |-> 0, frame |-> 5, optimise |-> 1, marginalise |-> 0, window |-> 0, change |-> 1]

\* ---- what the properties say
OnceEach == (\A i \in DOMAIN handedF : handedF[i] = 1) /\ (\A k \in DOMAIN handedV : handedV[k] = 1)
AllHanded == \A i \in DOMAIN g.fac : (g.fac[i].at <= g.opt /\ i \notin g.newf) => i \in DOMAIN handedF
ValuesFirst == \A i \in DOMAIN handedF : \A j \in DOMAIN g.fac[i].keys : g.fac[i].keys[j] \in DOMAIN handedV
RemovedSet == UNION {removed[i] : i \in DOMAIN removed}
RemovedOnce == \A i, j \in DOMAIN removed : i # j => removed[i] \intersect removed[j] = {}
RemovedAreOptimised == RemovedSet \subseteq DOMAIN handedV
\* nothing that was removed is ever observed again
NeverObservedLater == \A i \in g.newf : \A j \in DOMAIN g.fac[i].keys : g.fac[i].keys[j] \notin RemovedSet
MargMonotone == [][g'.marg >= g.marg]_vars
LaterKept == \A k \in RemovedSet : Kind(k) = "S" \/ k[2] <= g.marg
OneLandmark == \A i, j \in DOMAIN g.fac : (i < j /\ g.fac[i].k = "stereo" /\ g.fac[j].k = "stereo") => g.fac[i].keys # g.fac[j].keys
=============================================================================
