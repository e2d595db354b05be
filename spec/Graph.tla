------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The pose-graph store and its optimiser.                                 *)
(* A value key is <<kind, number>>: X pose, V velocity, B IMU bias,        *)
(* P barometer bias (number = state), S landmark (number = identity).      *)
(*   val   what is stored for each value key                               *)
(*   new   value keys the optimiser has not received yet                   *)
(*   fac   every factor: at (state it is filed under), k (kind),           *)
(*         keys (value keys it connects), m (measurement), n (noise)       *)
(*   newf  positions in fac of the factors it has not received yet         *)
(*   at    the state each value key belongs to (a landmark: the state that *)
(*         created it)                                                     *)
(*   rem   the state with which each value key may be removed; keys        *)
(*         already reported as removable are absent                        *)
(*   feats features of each feature frame (identity -> observation)        *)
(*   opt, marg  last optimised / marginalised state, win  window (-1: off) *)
(*   ts    time stamps; named  named keys <<key, priority>>                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Graph0 == [val |-> <<>>, new |-> {}, fac |-> <<>>, newf |-> {}, at |-> <<>>, rem |-> <<>>, feats |-> <<>>, opt |-> -1, marg |-> -1,
           win |-> -1, ts |-> <<>>, named |-> <<>>]
Put(f, x, y) == [z \in DOMAIN f \union {x} |-> IF z = x THEN y ELSE f[z]]
Restrict(f, S) == [x \in S |-> f[x]]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Kind(k) == k[1]
\* store v for k, which belongs to state s
SetVal(g, k, v, s) ==
   IF k \in DOMAIN g.val THEN [g EXCEPT !.val = Put(@, k, v)]
   ELSE [g EXCEPT !.val = Put(@, k, v), !.new = @ \union {k}, !.at = Put(@, k, s), !.rem = Put(@, k, s)]
SetState(g, kind, i, v) == SetVal(g, <<kind, i>>, v, i)
AddFac(g, s, k, keys, m, n) ==
   [g EXCEPT !.fac = Append(@, [at |-> s, k |-> k, keys |-> keys, m |-> m, n |-> n]), !.newf = @ \union {Len(g.fac) + 1}]
RECURSIVE AddFacs(_, _)
AddFacs(g, fs) == IF fs = <<>> THEN g ELSE AddFacs(AddFac(g, fs[1].at, fs[1].k, fs[1].keys, fs[1].m, fs[1].n), Tail(fs))

\* ---- feature frames
PrevFrame(g) == IF DOMAIN g.feats = {} THEN -1 ELSE MaxOf(DOMAIN g.feats)
PrevPrevFrame(g) == LET D == DOMAIN g.feats \ {PrevFrame(g)} IN IF D = {} THEN -1 ELSE MaxOf(D)
FramesRefused(g, k) == k \in DOMAIN g.feats
NeedsPose(g, k) == DOMAIN g.feats # {} /\ <<"X", k>> \notin DOMAIN g.val
\* a feature seen in this frame and the previous one is tracked
Tracked(g, f) == IF DOMAIN g.feats = {} THEN {} ELSE DOMAIN f \intersect DOMAIN g.feats[PrevFrame(g)]
FreshTracks(g, f) == IF PrevPrevFrame(g) = -1 THEN Tracked(g, f) ELSE Tracked(g, f) \ DOMAIN g.feats[PrevPrevFrame(g)]
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == MinOf(S) IN <<x>> \o SetToSeq(S \ {x})
StereoFac(s, x, id, obs, n) == [at |-> s, k |-> "stereo", keys |-> << <<"X", x>>, <<"S", id>> >>, m |-> obs, n |-> n]
\* lm: where each tracked feature is placed
RECURSIVE SetLandmarks(_, _, _, _)
SetLandmarks(g, k, ids, lm) == IF ids = <<>> THEN g
   ELSE LET g1 == SetVal(g, <<"S", ids[1]>>, lm[ids[1]], k)
        IN SetLandmarks(IF <<"S", ids[1]>> \in DOMAIN g1.rem THEN [g1 EXCEPT !.rem = Put(@, <<"S", ids[1]>>, k)] ELSE g1, k, Tail(ids), lm)
AddFeatures(g, k, f, lm, n) ==
   LET fresh == SetToSeq(FreshTracks(g, f)) all == SetToSeq(Tracked(g, f)) p == PrevFrame(g)
       g1 == AddFacs(g, [i \in DOMAIN fresh |-> StereoFac(k, p, fresh[i], g.feats[p][fresh[i]], n)])
       g2 == AddFacs(g1, [i \in DOMAIN all |-> StereoFac(k, k, all[i], f[all[i]], n)])
   IN [SetLandmarks(g2, k, all, lm) EXCEPT !.feats = Put(@, k, f)]

\* ---- optimisation up to state m: what is handed over, and the store afterwards
HandedFac(g, m) == {i \in g.newf : g.fac[i].at <= m}
HandedVal(g, m) == {k \in g.new : g.at[k] <= m}
Removable(g, m) == {k \in DOMAIN g.rem : g.rem[k] <= m}
MargRefused(g, m) == m > g.opt
Marginalised(g, m) == [g EXCEPT !.rem = Restrict(@, DOMAIN @ \ Removable(g, m)), !.marg = IF m > @ THEN m ELSE @]
\* est: the optimiser's estimate
Optimised(g, m, est) ==
   [g EXCEPT !.newf = @ \ HandedFac(g, m), !.new = @ \ HandedVal(g, m), !.opt = m, !.val = [k \in DOMAIN @ |-> IF k \in DOMAIN est THEN est[k] ELSE @[k]]]
AutoMarg(g) == g.win >= 0 /\ g.opt - g.win >= 0 /\ g.opt - g.win >= g.marg

\* ---- reading
ValuesIn(g, a, b) == {k \in DOMAIN g.val : a <= g.at[k] /\ g.at[k] <= b}
FactorsIn(g, a, b) == SelectSeq(g.fac, LAMBDA f : a <= f.at /\ f.at <= b)
FactorsOf(g, k) == SelectSeq(g.fac, LAMBDA f : \E i \in DOMAIN f.keys : f.keys[i] = k)
MinKeys(g, prio) == {g.named[n][1] : n \in {m \in DOMAIN g.named : g.named[m][2] <= prio}}
=============================================================================
