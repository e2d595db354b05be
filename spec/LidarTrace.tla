----------------------------- MODULE LidarTrace -----------------------------
(***************************************************************************)
(* P08 (filter chain), P10 (formatter), P33 (beam directions, normals):    *)
(* the lidar preprocessing modules, message by message.  cfg is the        *)
(* configuration of the module under test and how many clouds it has seen. *)
(***************************************************************************)
EXTENDS Cloud2, Cloud, TraceBase
VARIABLE cfg
vars == <<l, cfg>>
Init == l = 1 /\ cfg = <<>>
Keep == UNCHANGED cfg
Pt(v, i) == << v[1][i], v[2][i], v[3][i] >>
Count(v) == Len(v[1])
SameMeta(c, d) == d.f = c.f /\ d.be = c.be /\ Header(d) = Header(c) /\ (Len(d.p) > 0 => d.ps = c.ps)
\* (the library leaves the sizes of a cloud without points to itself)
LayoutOk(d) == IF d.nd = 0 THEN Len(d.p) = 0 /\ d.w * d.h = 0 ELSE Layout(d)
\* exactly the points of must, possibly those of may, in order and with all their bytes
RECURSIVE KeptBetween(_, _, _, _, _, _)
KeptBetween(c, d, i, j, must, may) ==       \* points i.. of c against points j.. of d
   IF i > Len(c.p) THEN j > Len(d.p)
   ELSE \/ (i \in may /\ j <= Len(d.p) /\ d.p[j] = c.p[i] /\ KeptBetween(c, d, i + 1, j + 1, must, may))
        \/ (i \notin must /\ KeptBetween(c, d, i + 1, j, must, may))
Subcloud(what, must, may) ==
   /\ Ck("fields, header and byte order kept", SameMeta(E.src, E.out))
   /\ Ck("consistent layout", LayoutOk(E.out))
   /\ Ck(what, KeptBetween(E.src, E.out, 1, 1, must, may))

\* ---- P08
Refused == E.random /\ (E.sample < 0 \/ E.seed < 0)
Filters == IsEvent("filters") /\ Ck("negative sample size or seed refused, anything else accepted", E.exc = Refused)
   /\ (~E.exc => Ck("output topic", E.topic = "filter/filtered_pointcloud")) /\ cfg' = [topic |-> E.topic]
Chain == IsEvent("chain") /\ Keep
   /\ IF E.norange THEN Ck("a cloud without range is refused by the range filter", E.exc)
      ELSE /\ Ck("accepted", ~E.exc)
           /\ Ck("one cloud per enabled filter", E.n = E.want)
           /\ (E.n > 0 => Ck("the last filter feeds the output topic", E.last = cfg.topic))
Cell(leaf, p) == << RFloor(RDiv(p[1], leaf)), RFloor(RDiv(p[2], leaf)), RFloor(RDiv(p[3], leaf)) >>
Voxel == IsEvent("voxel") /\ Keep /\
   LET n == Count(E.v)
       cell == [i \in 1..n |-> Cell(E.leaf, Pt(E.v, i))]
       in(c) == {i \in 1..n : cell[i] = c}
       want == {c \in {cell[i] : i \in 1..n} : Cardinality(in(c)) >= E.min}
       outc == [j \in 1..Count(E.ov) |-> Cell(E.leaf, Pt(E.ov, j))]
       seq(S) == SelectIdx(n, LAMBDA i : i \in S)
       MeanIs(k, S, o) == LET s == seq(S)
                              vs == [q \in DOMAIN s |-> E.a[k][s[q]]]
                          IN RLeq(RAbs(RSub(o, RDiv(RSum(vs), Len(vs)))), RAdd("1e-30", RMul("1e-5", RSum([q \in DOMAIN vs |-> RAbs(vs[q])]))))
   IN /\ Ck("fields and header kept", E.out.f = E.src.f /\ Header(E.out) = Header(E.src))
      /\ Ck("consistent layout", LayoutOk(E.out))
      /\ Ck("one point for each cell with enough points, none for others",
            Count(E.ov) = Cardinality(want) /\ {outc[j] : j \in DOMAIN outc} = want)
      /\ Ck("every field is the mean over the cell", \A j \in DOMAIN outc : \A k \in DOMAIN E.src.f : MeanIs(k, in(outc[j]), E.b[k][j]))
RXYZ(a) == MMul(MMul(RotOf(<<0, 0, a[3]>>), RotOf(<<0, a[2], 0>>)), RotOf(<<a[1], 0, 0>>))
BodyF == IsEvent("body") /\ Keep /\
   LET R == Tr(RXYZ(E.rot))
       q(i) == MVec(R, VSub(Pt(E.v, i), E.tr))
       N == 1..Count(E.v)
       margin(i) == LET x == q(i) IN [k \in 1..3 |-> RMin(RSub(x[k], E.lo[k]), RSub(E.hi[k], x[k]))]
       inside == [i \in N |-> LET m == margin(i) IN RMin(m[1], RMin(m[2], m[3]))]
       must == {i \in N : RLt(inside[i], "-1e-5")}
       may == {i \in N : RLeq(inside[i], "1e-5")}
   IN Subcloud("exactly the points outside the body box", must, may)
RangeF == IsEvent("range") /\ Keep /\
   LET N == DOMAIN E.vals
       eps(x) == RMul("1e-6", RAbs(x))
       must == {i \in N : (RLeq(RAdd(E.min, eps(E.min)), E.vals[i]) \/ RLeq(E.min, 0)) /\ RLeq(E.vals[i], RSub(E.max, eps(E.max)))}
       may == {i \in N : RLeq(RSub(E.min, eps(E.min)), E.vals[i]) /\ RLeq(E.vals[i], RAdd(E.max, eps(E.max)))}
   IN Subcloud("exactly the points within the range limits", must, may)
\* mean distance to the k nearest points, the point itself (distance 0) being one of them: the library's counting
RECURSIVE SmallestSum(_, _)
SmallestSum(D, k) == IF k = 0 THEN 0 ELSE LET m == CHOOSE m \in D : \A x \in D : RLeq(m[2], x[2]) IN RAdd(m[2], SmallestSum(D \ {m}, k - 1))
Sor == IsEvent("sor") /\ Keep /\
   LET n == Count(E.v) N == 1..n
       d == [i \in N |-> RDiv(SmallestSum({<<j, RStr(Norm(VSub(Pt(E.v, i), Pt(E.v, j))))>> : j \in N \ {i}}, E.k - 1), E.k - 1)]
       mean == RDiv(RSum(d), n)
       sd == RSqrt(RDiv(RSum([i \in N |-> RMul(RSub(d[i], mean), RSub(d[i], mean))]), n - 1))
       thr == RAdd(mean, RMul(E.mul, sd))
       tol == RMul("1e-4", RAdd(mean, sd))
   IN IF n <= E.k + 1 \/ E.k < 2 THEN TRUE
      ELSE Subcloud("exactly the points whose mean neighbour distance is at most mean + factor * deviation",
               {i \in N : RLeq(d[i], RSub(thr, tol))}, {i \in N : RLeq(d[i], RAdd(thr, tol))})
Random == IsEvent("random") /\ Keep /\
   LET n == Count(E.v) IN
   /\ Subcloud("some of the points, in order", {}, 1..n)
   /\ Ck("as many as asked for", Len(E.out.p) = IF E.sample < n THEN E.sample ELSE n)

\* ---- P10
FLOAT32 == 7
Stored7(v, out) == RLeq(RAbs(RSub(out, v)), RAdd("1e-44", RMul("6e-8", RAbs(v))))
Formatter == IsEvent("formatter") /\ Ck("unknown sensor types refused, others accepted", E.exc = (E.kind = 2))
   /\ cfg' = [kind |-> E.kind, tf |-> E.tf, max |-> E.max, first |-> E.first, frame |-> E.frame, seen |-> 0]
\* name, new type after normalisation
TypeAfter(x) == IF cfg.kind = 0 /\ FName(x) \in {"t", "range"} THEN FLOAT32 ELSE FType(x)
NameAfter(c, x) == IF cfg.kind = 1 /\ FName(x) = "time" /\ ~HasField(c, "t") THEN "t" ELSE FName(x)
FieldsAfter(c) == [k \in DOMAIN c.f |-> << NameAfter(c, c.f[k]), FOff(c.f[k]), TypeAfter(c.f[k]), FCount(c.f[k]) >>]
TimeField(c) == IF cfg.kind = 1 /\ ~HasField(c, "t") THEN "time" ELSE "t"
Fmt == IsEvent("format") /\ cfg' = [cfg EXCEPT !.seen = @ + 1] /\
   LET c == E.src o == E.out
       HasF(n) == HasField(c, n)
       FT(n) == FType(c.f[FIndex(c, n)])
       tn == TimeField(c)
       tin == IF tn = "t" THEN E.t0 ELSE E.time0
       refuse == \/ cfg.kind = 0 /\ (~HasF("t") \/ ~HasF("range") \/ TypeSize(FT("t")) # 4 \/ TypeSize(FT("range")) # 4)
                 \/ cfg.tf /\ (~HasF(tn) \/ (cfg.kind = 1 /\ FT(tn) # FLOAT32))
       conv(n, v) == IF cfg.kind = 0 /\ FT(n) # FLOAT32 THEN RMul(v, IF n = "range" THEN "1e-3" ELSE "1e-9") ELSE v
       secs == [i \in DOMAIN tin |-> conv(tn, tin[i])]
       N == DOMAIN c.p
       eps == RMul("1e-6", cfg.max)
       must == IF cfg.tf THEN {i \in N : RLeq(secs[i], RSub(cfg.max, eps)) \/ REq(secs[i], cfg.max)} ELSE N
       may == IF cfg.tf THEN {i \in N : RLeq(secs[i], RAdd(cfg.max, eps))} ELSE N
       X == {k \in DOMAIN c.f : TypeAfter(c.f[k]) # FType(c.f[k])}
       \* point j of the output is point i of the input
       Same(i, j) == /\ \A k \in DOMAIN c.f \ X : FBytes(c, i, c.f[k]) = FBytes(o, j, o.f[k])
                     /\ (HasF(tn) => Stored7(secs[i], E.t1[j]))
                     /\ (HasF("range") => Stored7(conv("range", E.r0[i]), E.r1[j]))
       Match[i \in 1..(Len(c.p) + 1), j \in 1..(Len(o.p) + 1)] ==
           IF i > Len(c.p) THEN j > Len(o.p)
           ELSE \/ (i \in may /\ j <= Len(o.p) /\ Same(i, j) /\ Match[i + 1, j + 1])
                \/ (i \notin must /\ Match[i + 1, j])
   IN IF cfg.first /\ cfg.seen = 0 THEN Ck("the first cloud is dropped", E.n = 0 /\ ~E.exc)
      ELSE IF refuse THEN Ck("a cloud without usable time or range is refused", E.exc /\ E.n = 0)
      ELSE /\ Ck("accepted, one cloud out", ~E.exc /\ E.n = 1)
           /\ Ck("fields: renamed and retyped as configured, nothing else", o.f = FieldsAfter(c))
           /\ Ck("consistent layout", Layout(o) /\ o.ps = c.ps)
           /\ Ck("stamp kept, lidar frame", o.stamp = c.stamp /\ o.seq = c.seq /\ o.frame = cfg.frame)
           /\ Ck("every point (up to the time limit) once, in order, values converted once and otherwise unchanged", Match[1, 1])
           /\ (~cfg.tf => Ck("shape kept", o.w = c.w /\ o.h = c.h))

\* ---- P33
UnitNode == IsEvent("unitnode") /\ Keep /\ Ck("one cloud out", ~E.exc /\ E.n = 1)
   /\ Ck("consistent layout", Layout(E.out))
   /\ Ck("three float fields appended", AddedNames(E.src, E.out, <<"ux", "uy", "uz">>, 7, 1))
   /\ Ck("everything else kept", AddedKeeps(E.src, E.out))
   /\ Ck("unit vector towards each point", Count(E.u) = Count(E.v) /\ \A i \in 1..Count(E.v) : VNearAbs(Pt(E.u, i), VScale(RDiv(1, Norm(Pt(E.v, i))), Pt(E.v, i)), "1e-6"))
NormalCfg == IsEvent("normalcfg") /\ Keep /\ Ck("unknown method refused", E.exc = E.bad)
\* covariance of a set of points (unnormalised), and what a least-variance direction of it is
CovOf(S) ==
   LET s == SelectIdx(Count(E.v), LAMBDA i : i \in S)
       m == VScale(RDiv(1, Len(s)), << RSum([q \in DOMAIN s |-> E.v[1][s[q]]]), RSum([q \in DOMAIN s |-> E.v[2][s[q]]]), RSum([q \in DOMAIN s |-> E.v[3][s[q]]]) >>)
       d == [q \in DOMAIN s |-> VSub(Pt(E.v, s[q]), m)]
   IN [a \in 1..3 |-> [b \in 1..3 |-> RDiv(RSum([q \in DOMAIN s |-> RMul(d[q][a], d[q][b])]), Len(s))]]
Least(C, n, cu) ==
   LET Cn == MVec(C, n) lam == RDot(n, Cn)
       tr == RAdd(C[1][1], RAdd(C[2][2], C[3][3]))
       m2 == RAdd(RSub(RMul(C[1][1], C[2][2]), RMul(C[1][2], C[2][1])), RAdd(RSub(RMul(C[1][1], C[3][3]), RMul(C[1][3], C[3][1])), RSub(RMul(C[2][2], C[3][3]), RMul(C[2][3], C[3][2]))))
       ab == RSub(m2, RMul(lam, RSub(tr, lam)))            \* product of the two other eigenvalues
       gap == RAdd(RSub(ab, RMul(lam, RSub(tr, lam))), RMul(lam, lam))   \* (a - lam)(b - lam)
       tol == RMul("2e-3", tr)
   IN /\ RLeq(Norm(VSub(Cn, VScale(lam, n))), tol)
      /\ RLeq(RNeg(RMul(tol, tr)), gap) /\ RLeq(RMul(2, lam), RAdd(RSub(tr, lam), tol))
      /\ RLeq(RAbs(RSub(cu, RDiv(lam, tr))), "5e-3")
\* the neighbours: all within the radius, or the k nearest (the point itself included); ties and rims make several sets possible
Nb(i) == LET N == 1..Count(E.v)
             d == [j \in N |-> Norm(VSub(Pt(E.v, i), Pt(E.v, j)))]
             rank == [j \in N |-> Cardinality({q \in N : RLt(d[q], d[j]) \/ (REq(d[q], d[j]) /\ q < j)})]
         IN IF E.radius THEN [set |-> {j \in N : RLeq(d[j], E.r)}, sure |-> \A j \in N : RLt("1e-4", RAbs(RSub(d[j], E.r)))]
            ELSE [set |-> {j \in N : rank[j] < E.k},
                  sure |-> \A j, q \in N : (rank[j] < E.k /\ rank[q] >= E.k) => RLt(RAdd(d[j], "1e-4"), d[q])]
NormalAt(i) ==
   LET nb == Nb(i) n == Pt(E.nrm, i) C == CovOf(nb.set) IN
   IF ~nb.sure THEN TRUE
   ELSE IF Cardinality(nb.set) < 3 THEN TRUE
   ELSE /\ Ck("unit length", RLeq(RAbs(RSub(Norm(n), 1)), "1e-4"))
        /\ Ck("towards the viewpoint", RLeq("-1e-4", RDot(n, VSub(E.vp, Pt(E.v, i)))))
        /\ Ck("direction of least variance of the neighbourhood, and its curvature", Least(C, n, E.cu[i]))
Normals == IsEvent("normals") /\ Keep /\ Ck("one cloud out", ~E.exc /\ E.n = 1)
   /\ Ck("every point once, in place", E.o = E.v /\ E.w * E.h = Count(E.v) /\ Count(E.nrm) = Count(E.v) /\ Len(E.cu) = Count(E.v))
   /\ Ck("stamp and frame kept", E.st1 = E.st0 /\ E.f1 = E.f0)
   /\ (E.unit => Ck("beam directions kept", E.u1 = E.u0))
   /\ \A i \in 1..Count(E.v) : NormalAt(i)
End == IsEvent("end") /\ Keep
Next == Filters \/ Chain \/ Voxel \/ BodyF \/ RangeF \/ Sor \/ Random \/ Formatter \/ Fmt \/ UnitNode \/ NormalCfg \/ Normals \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
