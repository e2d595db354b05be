----------------------------- MODULE StereoTrace ----------------------------
(***************************************************************************)
(* P28, P29, P30: the recorded calls of the stereo front end, with the     *)
(* current images / matcher configuration / filter settings as state.      *)
(***************************************************************************)
EXTENDS Stereo, TraceBase
VARIABLES L, R,      \* images
          c,         \* matcher configuration
          flt        \* filter objects' settings
vars == <<l, L, R, c, flt>>
NoCfg == [kind |-> "none"]
Init == l = 1 /\ L = <<>> /\ R = <<>> /\ c = NoCfg /\ flt = <<>>
Keep == UNCHANGED <<L, R, c, flt>>

Images == IsEvent("images") /\ L' = E.L /\ R' = E.R /\ UNCHANGED <<c, flt>>
Config == IsEvent("config") /\ UNCHANGED <<L, R, flt>>
          /\ LET bad == E.c.w < 1 \/ E.c.h < 1 \/ E.c.w % 2 = 0 \/ E.c.h % 2 = 0 \/ E.c.rn <= 0 \/ E.c.rn >= E.c.rd
             IN Ck("matcher construction refused exactly for invalid window or ratio", E.exc = bad)
          /\ c' = IF E.exc THEN NoCfg ELSE E.c
BadSize == IsEvent("badsize") /\ Keep /\ Ck("images of different sizes refused", E.exc)
BadType == IsEvent("badtype") /\ Keep /\ Ck("other pixel types refused", E.exc)
Filter == IsEvent("tofilter") /\ Keep
          /\ Ck("matching filter name", E.exc = (E.name \notin {"UNIDIRECTIONAL", "BIDIRECTIONAL", "RATIO_TEST"}))

\* ---- P29
WinStat == IsEvent("winstat") /\ Keep /\
   LET im == IF E.left THEN L ELSE R
       ins == Inside(im, E.x, E.y, E.w, E.h)
   IN /\ Ck("window inside image", E.inside = ins)
      /\ ins => LET p == Pix(im, E.x, E.y, E.w, E.h)
                IN /\ Ck("sum", RNear(E.sum, Sum(p), "1e-12"))
                   /\ Ck("mean", RNear(E.mean, Mean(p), "1e-12"))
                   /\ Ck("sum of squares", RNear(E.sumsq, SumSq(p), "1e-12"))
CostEv == IsEvent("cost") /\ Keep /\
   LET k == Cost(E.kind, Pix(L, E.x1, E.y1, E.w, E.h), Pix(R, E.x2, E.y2, E.w, E.h))
   IN /\ Ck("cost", RNear(E.out, k, "1e-9"))
      /\ Ck("cost with the reference statistic supplied", RNear(E.out2, k, "1e-9"))

\* ---- P28
Ref(right) == IF right THEN L ELSE R
Oth(right) == IF right THEN R ELSE L
\* the answer of one dense search: r = [p, right, matched, cost, x2, y2] (x2, y2: found position in half pixels)
DenseOk(p, right, matched, cost, x2, y2) ==
   LET tl == TopLeft(c, p)
       ref == Ref(right)
       oth == Oth(right)
   IN IF ~In(c, ref, tl) THEN Ck("no admissible candidate: no match", ~matched)
      ELSE LET F == DenseCosts(c, ref, oth, tl, right)
               K == DOMAIN F
               m == MinOf(K, F)
               B == {x \in K : Near2(F[x], m)}             \* minimum-cost windows
               fx == (x2 - c.w) \div 2                     \* column of the window whose middle was returned
               rev(x) == DenseReverse(c, ref, oth, <<x, tl[2]>>, right)
               mustBi(x) == LET V == rev(x) IN \A y \in DOMAIN V \ {tl[1]} : RLt(RAdd(F[x], Eps(F[x])), V[y])
               mayBi(x) == LET V == rev(x) IN \A y \in DOMAIN V \ {tl[1]} : RLeq(RSub(F[x], Eps(F[x])), V[y])
           IN /\ Ck("reported cost is the minimum", Near2(cost, m))
              /\ matched => Ck("returned window is a minimum-cost candidate",
                               /\ (x2 - c.w) % 2 = 0 /\ y2 = 2 * tl[2] + c.h /\ fx \in B)
              /\ CASE c.filter = "UNIDIRECTIONAL" -> Ck("matched", matched)
                   [] c.filter = "RATIO_TEST" ->
                        Ck("ratio test", \E b \in B : RatioAllows(c, F, K, b, matched))
                   [] c.filter = "BIDIRECTIONAL" ->
                        Ck("bidirectional", IF matched THEN mayBi(fx) ELSE \E b \in B : ~mustBi(b))
Search == IsEvent("search") /\ Keep /\ DenseOk(E.p, E.right, E.matched, E.cost, E.x2, E.y2)
Searches == IsEvent("searches") /\ Keep
   /\ Ck("one answer per key point", Len(E.matched) = Len(E.P) /\ Len(E.cost) = Len(E.P) /\ Len(E.x2) = Len(E.P))
   /\ \A i \in 1..Len(E.P) : DenseOk(E.P[i], E.right, E.matched[i], E.cost[i], E.x2[i], E.y2[i])

\* one sparse search without the bidirectional requirement: index i (0: none)
SparseOk(p, Q, right, i, cost, bi, back(_)) ==
   LET F == SparseCosts(c, Ref(right), Oth(right), p, Q, right)
       K == DOMAIN F
   IN IF K = {} THEN Ck("no admissible candidate: no match", i = 0)
      ELSE LET m == MinOf(K, F)
               B == {k \in K : Near2(F[k], m)}
           IN /\ i # 0 => Ck("match is an admissible candidate of minimum cost", i \in B)
              /\ i # 0 => Ck("reported cost is the minimum", Near2(cost, m))
              /\ CASE c.filter = "RATIO_TEST" -> Ck("ratio test", \E b \in B : RatioAllows(c, F, K, b, i # 0))
                   [] c.filter = "BIDIRECTIONAL" /\ bi ->
                        Ck("bidirectional", IF i # 0 THEN back(i) # "no" ELSE \E b \in B : back(b) # "yes")
                   [] OTHER -> Ck("matched", i # 0)
Index == IsEvent("index") /\ Keep /\ SparseOk(E.p, E.Q, E.right, E.i + 1, E.cost, FALSE, LAMBDA x : "yes")
Indices == IsEvent("indices") /\ Keep
   /\ Ck("one answer per key point", Len(E.idx) = Len(E.P) /\ Len(E.cost) = Len(E.P))
   /\ \A n \in 1..Len(E.P) :
        LET back(i) == LET V == SparseCosts(c, Oth(E.right), Ref(E.right), E.Q[i], E.P, ~E.right)
                       IN IF n \notin DOMAIN V THEN "no"
                          ELSE LET m == MinOf(DOMAIN V, V)
                               IN IF ~Near2(V[n], m) THEN "no"
                                  ELSE IF \E k \in DOMAIN V \ {n} : Near2(V[k], m) THEN "either" ELSE "yes"
        IN SparseOk(E.P[n], E.Q, E.right, E.idx[n] + 1, E.cost[n], TRUE, back)

\* ---- P30
NewFilter == IsEvent("newfilter") /\ flt' = E.s /\ UNCHANGED <<L, R, c>>
SetFilter == IsEvent("setfilter") /\ UNCHANGED <<L, R, c>>
   /\ flt' = [flt EXCEPT ![E.field] = E.value]
   /\ (E.field = "thr" => Ck("threshold read back", RNear(E.readback, E.value, "1e-7")))
KeepMatch(s, m, P, Q) ==
   CASE s.kind = "distance" -> RLeq(m[3], s.thr)
     [] s.kind = "stereo" -> LET a == P[m[1] + 1] b == Q[m[2] + 1]
                             IN RLt(b[1], a[1]) /\ RLeq(RAbs(RSub(a[2], b[2])), s.thr)
     [] s.kind = "range" -> LET dx == RSub(P[m[1] + 1][1], Q[m[2] + 1][1])
                            IN RLt(0, dx) /\ LET d == RDiv(RMul(s.fx, s.b), dx) IN RLeq(s.min, d) /\ RLeq(d, s.max)
Apply == IsEvent("filter") /\ Keep /\
   LET K == Kept(Len(E.M), LAMBDA i : KeepMatch(flt, E.M[i], E.P, E.Q))
   IN /\ Ck("positions of the kept matches", E.idx = K)
      /\ Ck("kept matches", Len(E.out) = Len(K) /\ \A i \in 1..Len(K) : E.out[i] = E.M[K[i] + 1])
ProjectEv == IsEvent("project") /\ Keep /\
   IF RLeq(E.p[3], 0) THEN Ck("on or behind the image plane: refused", E.exc)
   ELSE /\ Ck("accepted", ~E.exc)
        /\ LET w == Project(E.K, E.b, E.p)
           IN Ck("projection", \A i \in 1..3 : RLeq(RAbs(RSub(E.out[i], w[i])), RMul(E.tol, RAdd(1, RAdd(RAbs(w[i]), RAbs(E.K[3]))))))
BackEv == IsEvent("backproject") /\ Keep /\
   IF REq(E.s[1], E.s[2]) THEN Ck("no disparity: refused", E.exc)
   ELSE /\ Ck("accepted", ~E.exc)
        /\ LET w == BackProject(E.K, E.b, E.s) IN Ck("back-projection", \A i \in 1..3 : RNear(E.out[i], w[i], E.tol))
RoundEv == IsEvent("roundtrip") /\ Keep /\ Ck("project then back-project", \A i \in 1..3 : RNear(E.out[i], E.p[i], "1e-6"))
End == IsEvent("end") /\ Keep /\ Ck("trace complete", E.n = Len(Trace) - 1)

Next == More /\
   CASE E.op = "images" -> Images [] E.op = "config" -> Config [] E.op = "badsize" -> BadSize [] E.op = "badtype" -> BadType
     [] E.op = "tofilter" -> Filter [] E.op = "winstat" -> WinStat [] E.op = "cost" -> CostEv
     [] E.op = "search" -> Search [] E.op = "searches" -> Searches [] E.op = "index" -> Index [] E.op = "indices" -> Indices
     [] E.op = "newfilter" -> NewFilter [] E.op = "setfilter" -> SetFilter [] E.op = "filter" -> Apply
     [] E.op = "project" -> ProjectEv [] E.op = "backproject" -> BackEv [] E.op = "roundtrip" -> RoundEv
     [] E.op = "end" -> End
Spec == Init /\ [][Next]_vars
=============================================================================
