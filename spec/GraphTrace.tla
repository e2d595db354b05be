----------------------------- MODULE GraphTrace -----------------------------
(***************************************************************************)
(* P21-P24: calls of the real graph store, and what it handed to the       *)
(* optimiser, are behaviours of Graph.tla.                                 *)
(* g: the store.  c: camera calibration and pose of this history.          *)
(* Values are the logged numbers (sequences of strings).                   *)
(***************************************************************************)
EXTENDS Graph, Rigid, TraceBase
VARIABLES g, c
vars == <<l, g, c>>
Init == l = 1 /\ g = Graph0 /\ c = [K |-> <<>>, cam |-> <<>>]
KeepC == UNCHANGED c
Keep == UNCHANGED <<g, c>>
\* ---- numbers
PoseT(v) == << <<v[1], v[2], v[3], v[4]>>, <<v[5], v[6], v[7], v[8]>>, <<v[9], v[10], v[11], v[12]>> >>
TClose(A, B) == MNearAbs(Rot(A), Rot(B), "1e-9") /\ VNearAbs(Trn(A), Trn(B), RMul("1e-9", RAdd(1, VMaxAbs(Trn(B)))))
\* calibration <<fx, fy, s, cx, cy, b>>, observation <<uL, uR, v>> (no skew)
BackProject(o) == LET Z == RDiv(RMul(c.K[6], c.K[1]), RSub(o[1], o[2]))
                  IN << RDiv(RMul(Z, RSub(o[1], c.K[4])), c.K[1]), RDiv(RMul(Z, RSub(o[3], c.K[5])), c.K[2]), Z >>
\* ---- collections
Bag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Cardinality({j \in DOMAIN s : s[j] = s[i]}) = Cardinality({j \in DOMAIN t : t[j] = s[i]})
Plain(f) == [k |-> f.k, keys |-> f.keys, m |-> f.m, n |-> f.n]
PlainSeq(fs) == [i \in DOMAIN fs |-> Plain(fs[i])]
SetOf(s) == {s[i] : i \in DOMAIN s}
\* the listed pairs are exactly the entries of f for the keys S
Entries(r, S, f) == Len(r) = Cardinality(S) /\ SetOf(r) = {<<x, f[x]>> : x \in S}
Fn(r) == [x \in {r[i][1] : i \in DOMAIN r} |-> (CHOOSE i \in DOMAIN r : r[i][1] = x)]
FnV(r) == LET F == Fn(r) IN [x \in DOMAIN F |-> r[F[x]][2]]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
KeyOf == IF Has(E, "name") THEN g.named[E.name][1] + E.off ELSE E.k

NewGraph == IsEvent("newgraph") /\ g' = Graph0 /\ c' = [K |-> E.K, cam |-> E.cam]
   /\ Ck("calibration kept", E.Kr = E.K)
   /\ Ck("nothing optimised or marginalised yet", E.opt = -1 /\ E.marg = -1)
Set == IsEvent("set") /\ KeepC /\ LET k == KeyOf IN
   g' = CASE E.kind = "T" -> [g EXCEPT !.ts = Put(@, k, E.v)]
          [] E.kind = "N" -> SetState(SetState(g, "X", k, E.v), "V", k, E.v2)
          [] OTHER -> SetState(g, E.kind, k, E.v)
\* what each kind of factor connects
KeysOf(kind, k) ==
   CASE kind = "priorX" -> << <<"X", k>> >> [] kind = "priorV" -> << <<"V", k>> >> [] kind = "priorB" -> << <<"B", k>> >> [] kind = "priorP" -> << <<"P", k>> >>
     [] kind = "between" -> << <<"X", k - 1>>, <<"X", k>> >>
     [] kind = "bbias" -> << <<"P", k - 1>>, <<"P", k>> >>
     [] kind = "baro" -> << <<"X", k>>, <<"P", k>> >>
     [] kind = "imu" -> << <<"X", k - 1>>, <<"V", k - 1>>, <<"X", k>>, <<"V", k>>, <<"B", k - 1>>, <<"B", k>> >>
NewFactor == IsEvent("addfac") /\ KeepC
   /\ g' = AddFac(g, E.k, E.kind, KeysOf(E.kind, E.k), E.m, E.n)
   /\ (E.kind = "baro" => Ck("height of a pressure", E.h = E.wanth))
NewFrame == IsEvent("frame") /\ KeepC /\
   LET f == [i \in {E.f[j][1] : j \in DOMAIN E.f} |-> E.f[CHOOSE j \in DOMAIN E.f : E.f[j][1] = i]]
       lms == FnV(E.lm)
       txt == [i \in DOMAIN f |-> f[i][3]]
   IN IF FramesRefused(g, E.k) THEN Ck("a second frame for a state is refused", E.exc) /\ UNCHANGED g
      ELSE IF NeedsPose(g, E.k) THEN Ck("a frame of a state without a pose is refused", E.exc) /\ UNCHANGED g
      ELSE /\ Ck("frame accepted", ~E.exc)
           /\ Ck("the features tracked from the previous frame have landmarks, others none", DOMAIN lms = Tracked(g, f))
           /\ \A i \in DOMAIN lms : Ck("landmark where the observation back-projects to",
                 LET w == TApply(TMul(PoseT(g.val[<<"X", E.k>>]), PoseT(c.cam)), BackProject(f[i][2])) IN VNearAbs(lms[i], w, RMul("1e-9", RAdd(1, VMaxAbs(w)))))
           /\ g' = AddFeatures(g, E.k, txt, lms, E.n)
Upd == IsEvent("upd") /\ KeepC /\ LET v == FnV(E.v) IN
   IF DOMAIN v \subseteq DOMAIN g.val THEN Ck("accepted", ~E.exc) /\ g' = [g EXCEPT !.val = [k \in DOMAIN @ |-> IF k \in DOMAIN v THEN v[k] ELSE @[k]]]
   ELSE Ck("a value that was never stored is refused", E.exc) /\ UNCHANGED g
Named == IsEvent("named") /\ KeepC /\ g' = [g EXCEPT !.named = Put(@, E.name, <<E.k, E.p>>)]
Inc == IsEvent("inc") /\ KeepC /\
   IF E.name \in DOMAIN g.named THEN Ck("accepted", ~E.exc) /\ g' = [g EXCEPT !.named[E.name][1] = @ + 1] ELSE Ck("unknown name refused", E.exc) /\ UNCHANGED g
Window == IsEvent("window") /\ KeepC /\ g' = [g EXCEPT !.win = E.w]

\* ---- the optimiser
Optimise == IsEvent("optimise") /\ KeepC /\
   LET hf == HandedFac(g, E.k) hv == HandedVal(g, E.k) est == FnV(E.est)
       want == [i \in 1..Cardinality(hf) |-> Plain(g.fac[CHOOSE x \in hf : Cardinality({y \in hf : y <= x}) = i])]
       h == Optimised(g, E.k, est)
       auto == AutoMarg(h) m == h.opt - h.win
   IN /\ Ck("the optimiser is updated", Len(E.updates) >= 1)
      /\ Ck("the factors handed over are the new ones of these states", Bag(Cat([i \in DOMAIN E.updates |-> E.updates[i].f]), want))
      /\ Ck("the values handed over are the new ones of these states", Entries(Cat([i \in DOMAIN E.updates |-> E.updates[i].v]), hv, g.val))
      /\ Ck("fails only when the optimiser does", E.exc = E.lib)
      /\ IF E.exc THEN UNCHANGED g
         ELSE /\ Ck("last optimised state", E.opt = E.k)
              /\ IF auto
                 THEN /\ Ck("states outside the window are marginalised", Len(E.removed) = 1)
                      /\ Ck("each value key removed once, landmarks with their last observer", Len(E.removed[1]) = Cardinality(Removable(h, m)) /\ SetOf(E.removed[1]) = Removable(h, m))
                      /\ g' = Marginalised(h, m)
                 ELSE /\ Ck("nothing is marginalised", E.removed = <<>> \/ E.removed = << <<>> >>)
                      /\ g' = h
              /\ Ck("marginalisation point", E.marg = g'.marg \/ (~auto /\ E.marg = -1))
Marginalise == IsEvent("marginalise") /\ KeepC /\
   IF MargRefused(g, E.k) THEN Ck("states that were not optimised cannot be marginalised", E.exc /\ E.removed = <<>>) /\ UNCHANGED g
   ELSE /\ Ck("accepted", ~E.exc)
        /\ Ck("each value key removed once, landmarks with their last observer",
              \/ Len(E.removed) = 1 /\ Len(E.removed[1]) = Cardinality(Removable(g, E.k)) /\ SetOf(E.removed[1]) = Removable(g, E.k)
              \/ E.removed = <<>> /\ Removable(g, E.k) = {})
        /\ g' = Marginalised(g, E.k)
        /\ Ck("marginalisation point does not move back", E.marg = g'.marg)
        /\ Ck("last optimised state", E.opt = g.opt)

\* ---- reading
V(k) == g.val[k]
Stored(ks) == ks \subseteq DOMAIN g.val
State(k) == << g.ts[k], V(<<"X", k>>), V(<<"V", k>>), V(<<"B", k>>), V(<<"P", k>>), V(<<"X", k>>), V(<<"V", k>>) >>
NameKnown == Has(E, "name") => E.name \in DOMAIN g.named
Answer(ok, cond) == Ck("answered when stored, refused when absent: " \o E.what, E.exc = ~ok) /\ (ok => Ck("last value stored: " \o E.what, cond))
Get == IsEvent("get") /\ Keep /\
   CASE E.what \in {"X", "V", "B", "P"} -> LET k == <<E.what, KeyOf>> IN Answer(Stored({k}), E.r = V(k))
     [] E.what = "nav" -> LET k == KeyOf IN Answer(Stored({<<"X", k>>, <<"V", k>>}), E.r = << V(<<"X", k>>), V(<<"V", k>>) >>)
     [] E.what = "state" -> LET k == KeyOf IN Answer(k \in DOMAIN g.ts /\ Stored({<<"X", k>>, <<"V", k>>, <<"B", k>>, <<"P", k>>}), E.r = State(k))
     [] E.what = "ts" -> LET k == KeyOf IN Answer(k \in DOMAIN g.ts, E.r = g.ts[k])
     [] E.what = "has" -> Answer(TRUE, E.r = Stored({<<"X", KeyOf>>}))
     [] E.what = "dt" -> Answer({E.k, E.k2} \subseteq DOMAIN g.ts, REq(E.r, RSub(g.ts[E.k2], g.ts[E.k])))
     [] E.what = "values" -> Answer(TRUE, Entries(E.r, ValuesIn(g, E.a, E.b), g.val))
     [] E.what = "factors" -> Answer(TRUE, Bag(E.r, PlainSeq(FactorsIn(g, E.a, E.b))))
     [] E.what = "fackey" -> Answer(TRUE, Bag(E.r, PlainSeq(FactorsOf(g, E.key))))
     [] E.what = "value" -> Answer(Stored({E.key}), E.r = V(E.key))
     [] E.what = "haslm" -> Answer(TRUE, E.r = Stored({<<"S", E.k>>}))
     [] E.what = "lm" -> Answer(Stored({<<"S", E.k>>}), E.r = V(<<"S", E.k>>))
     [] E.what = "lms" -> LET S == {k \in DOMAIN g.val : Kind(k) = "S" /\ (E.k = -1 \/ g.at[k] = E.k)} IN
           Answer(TRUE, Len(E.r) = Cardinality(S) /\ SetOf(E.r) = {<<k[2], V(k)>> : k \in S})
     [] E.what = "cam" -> LET k == KeyOf IN Answer(Stored({<<"X", k>>}), TClose(PoseT(E.r), TMul(PoseT(V(<<"X", k>>)), PoseT(c.cam))))
     [] E.what = "key" -> Answer(NameKnown, E.r = KeyOf)
     [] E.what = "prio" -> Answer(NameKnown, E.r = g.named[E.name][2])
     [] E.what = "minkey" -> Answer(MinKeys(g, E.p) # {}, E.r = MinOf(MinKeys(g, E.p)))
     [] E.what = "cov" -> Answer(TRUE, E.r = E.want)
Dump == IsEvent("dump") /\ Keep
   /\ Ck("all values", Entries(E.vals, DOMAIN g.val, g.val))
   /\ Ck("all factors", Bag(E.facs, PlainSeq(g.fac)))
   /\ Ck("all time stamps", Entries(E.ts, DOMAIN g.ts, g.ts))
Done == IsEvent("end") /\ Keep
Next == NewGraph \/ Set \/ NewFactor \/ NewFrame \/ Upd \/ Named \/ Inc \/ Window \/ Optimise \/ Marginalise \/ Get \/ Dump \/ Done
Spec == Init /\ [][Next]_vars
=============================================================================
