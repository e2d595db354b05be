----------------------------- MODULE CloudTrace -----------------------------
(***************************************************************************)
(* P11, P12, P13: recorded cloud transforms, correspondences, covariances. *)
(***************************************************************************)
EXTENDS Cloud, TraceBase
Init == l = 1

\* ---- P11
Tol(T, p) == RMul("2e-6", RAdd(1, RAdd(RAdd(RAbs(p[1]), RAdd(RAbs(p[2]), RAbs(p[3]))), VMaxAbs(Trn(T)))))
PointOk(type, T, p, q) ==
   IF ~Valid(p) THEN /\ Ck("an invalid point stays invalid", ~Valid(q))
                     /\ Ck("an invalid point is left as it was", p = q)
   ELSE LET w == Moved(type, T, p)
            cs == RMul("4e-6", RAdd(RReal("1e-9"), MaxAbs(<<SubSeq(p, 8, Len(p))>>)))
        IN /\ Ck("same fields", Len(q) = Len(w))
           /\ Ck("position R p + t", \A i \in 1..3 : RLeq(RAbs(RSub(q[i], w[i])), Tol(T, p)))
           /\ Ck("normal R n", \A i \in 4..6 : RLeq(RAbs(RSub(q[i], w[i])), "2e-6"))
           /\ Ck("other data unchanged", q[7] = p[7])
           /\ Len(p) > 7 => Ck("beam direction R u / covariance R C R^T", \A i \in 8..Len(w) : RLeq(RAbs(RSub(q[i], w[i])), cs))
Xform == IsEvent("xform")
   /\ Ck("header, width, height, density preserved", E.ometa = E.meta)
   /\ Ck("same number of points", Len(E.out) = Len(E.in))
   /\ Ck("input untouched when out of place", E.kept)
   /\ \A i \in 1..Len(E.in) : PointOk(E.type, E.T, E.in[i], E.out[i])
Round == IsEvent("roundtrip") /\ Ck("same number of points", Len(E.out) = Len(E.in))
   /\ \A i \in 1..Len(E.in) : Ck("inverse restores the cloud", \A j \in 1..Len(E.in[i]) :
         RLeq(RAbs(RSub(E.out[i][j], E.in[i][j])), IF j <= 3 THEN RMul(4, Tol(E.T, E.in[i])) ELSE RMul("2e-5", RAdd("1e-9", MaxAbs(<<E.in[i]>>)))))
Normals == IsEvent("normals")
   /\ LET dev(p) == RAbs(RSub(Norm(V3(p, 4)), 1))
          sure == {i \in 1..Len(E.in) : RLt(RAdd(E.thr, "1e-5"), dev(E.in[i]))}
          may == {i \in 1..Len(E.in) : RLt(RSub(E.thr, "1e-5"), dev(E.in[i]))}
      IN Ck("number of normals that are not unit length", Cardinality(sure) <= E.out /\ E.out <= Cardinality(may))
   /\ Ck("beam directions", E.cols = Len(E.in) /\ \A i \in 1..Len(E.in) : E.U[i] = SubSeq(E.in[i], 8, 10))
PosePoint == IsEvent("posepoint")
   /\ Ck("position", VNear(E.xyz, Trn(E.T), "1e-6"))
   /\ Ck("rotation vector", MNearAbs(RotVec(FALSE, E.r), Rot(E.T), "1e-5"))
   /\ Ck("angle", RNear(E.angle, Norm(E.r), "1e-5"))
   /\ Ck("rotation matrix", MNearAbs(E.R, Rot(E.T), "1e-5"))
   /\ Ck("quaternion", MNearAbs(E.Q, Rot(E.T), "1e-5"))
   /\ Ck("pose", MNearAbs(Rot(E.iso), Rot(E.T), "1e-5") /\ VNear(Trn(E.iso), Trn(E.T), "1e-6"))

\* ---- P12
\* names: the points that look for a partner (their indices from 0, in order); pos: where they are; oth: candidates
Match(names, pos, O, oth, max, pairs) ==
   LET eps(d) == RMul("4e-6", RAdd(10, d))
       m2 == RMul(max, max)
       best(k) == MinD2(O, LAMBDA j : Dist2(pos[k], oth[j]))
       must(k) == RLeq(RAdd(best(k), eps(m2)), m2)
       may(k) == RLeq(RSub(best(k), eps(m2)), m2)
       K == DOMAIN names
   IN /\ Ck("a point appears at most once", \A i, j \in DOMAIN pairs : i # j => pairs[i][1] # pairs[j][1])
      /\ Ck("pairs name points taking part", \A i \in DOMAIN pairs : \E k \in K : names[k] = pairs[i][1])
      /\ Ck("every point with a partner in reach is paired", \A k \in K : must(k) => \E i \in DOMAIN pairs : pairs[i][1] = names[k])
      /\ \A i \in DOMAIN pairs :
           LET k == CHOOSE x \in K : names[x] = pairs[i][1]
               j == pairs[i][2] + 1
           IN /\ Ck("partner in reach", may(k))
              /\ Ck("partner exists", j \in O)
              /\ Ck("closest partner", RLeq(Dist2(pos[k], oth[j]), RAdd(best(k), eps(best(k)))))
              /\ Ck("distance", RLeq(RAbs(RSub(RMul(pairs[i][3], pairs[i][3]), Dist2(pos[k], oth[j]))), eps(best(k))))
Corr == IsEvent("corr") /\ Ck("accepted", ~E.exc) /\
   LET A == Aligned(E.T, E.src)
       S == {E.idx[i] + 1 : i \in 1..Len(E.idx)}
   IN IF E.rec
      THEN \* each target point looks for the closest source point taking part
           Match([k \in 1..Len(E.tgt) |-> k - 1], E.tgt, S, A, E.max, [i \in 1..Len(E.out) |-> <<E.out[i][2], E.out[i][1], E.out[i][3]>>])
      ELSE LET s == E.idx IN Match([k \in 1..Len(s) |-> s[k]], [k \in 1..Len(s) |-> A[s[k] + 1]], 1..Len(E.tgt), E.tgt, E.max, E.out)

\* ---- P13
Lin(m) == m \in {"POINT_LINEARISED", "PLANE_LINEARISED"}
Pln(m) == m \in {"PLANE_LINEARISED", "PLANE_NONLINEAR"}
Hess == IsEvent("hessian") /\
   LET w == Half(Pln(E.model), E.n, RotJet(Lin(E.model), E.r), E.t, E.p, E.q)
       tol == IF RLt(Norm(E.r), "5e-3") THEN "5e-5" ELSE "1e-8"   \* the closed form cancels near zero rotation
   IN /\ Ck("correspondence processed", E.ok)
      /\ Ck("half Hessian of the squared residual", MNearRel(E.H, w.H, tol))
      /\ Ck("half Hessian (without noise)", MNearRel(E.H2, w.H, tol))
      /\ Ck("half mixed derivative", MNearRel(E.Z, w.Z, tol))
XYZ(c) == [i \in 1..Len(c) |-> V3(c[i], 1)]
Cov == IsEvent("cov") /\
   LET J == RotJet(Lin(E.model), E.r)
       Rr == RotVec(FALSE, E.r)
       A == [i \in 1..Len(E.src) |-> VAdd(MVec(Rr, V3(E.src[i], 1)), E.t)]
       O == 1..Len(E.tgt)
       T3 == XYZ(E.tgt)
       nearest(i) == CHOOSE j \in O : \A k \in O : RLeq(Dist2(A[i], T3[j]), Dist2(A[i], T3[k]))
       best == [i \in 1..Len(A) |-> nearest(i)]
       K == SelectSeq([i \in 1..Len(A) |-> i], LAMBDA i : RLeq(Dist2(A[i], T3[best[i]]), RMul(E.max, E.max)))
       h == [k \in 1..Len(K) |-> LET q == E.tgt[best[K[k]]] IN Half(Pln(E.model), V3(q, 4), J, E.t, V3(E.src[K[k]], 1), V3(q, 1))]
       H == MSumSeq([k \in 1..Len(K) |-> h[k].H])
       Hi == RMatInv(H)
       Us == [k \in 1..Len(K) |-> V3(E.src[K[k]], 7) \o V3(E.tgt[best[K[k]]], 7)]
       C == IF E.method = "lls" THEN MScale(E.v1, Hi)
            ELSE MMul(MMul(Hi, Noise(E.method, [k \in 1..Len(K) |-> h[k].Z], Us, E.v1, E.v2)), Hi)
       cond == RMul(MaxAbs(H), MaxAbs(Hi))
       rel == RMul(cond, IF E.single THEN "4e-6" ELSE IF E.method \in {"range", "bias"} THEN "1e-6" ELSE "1e-9")
   IN /\ Ck("number of correspondences", E.count = Len(K))
      /\ Ck("covariance", MNearRel(E.C, C, rel))
      /\ Ck("symmetric", MNearRel(E.C, Tr(E.C), rel))
      /\ Ck("scales with the variances", MNearRel(E.C4, MScale(4, E.C), "1e-5"))
Names == IsEvent("names") /\
   LET me == {"CONSTANT", "CENSI", "LLS"}
       mo == {"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"}
       pt == {"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"}
       as(S) == IF E.s \in S THEN E.s ELSE "refused"
   IN /\ Ck("method name", E.method = as(me))
      /\ Ck("model name", E.model = as(mo))
      /\ Ck("point noise name", E.point = as(pt))
      /\ Ck("beam directions required", E.units = IF E.s \notin me \/ E.s2 \notin pt THEN "refused"
                                                 ELSE IF E.s # "CONSTANT" /\ E.s2 \in {"RANGE", "RANGE_BIAS"} THEN "yes" ELSE "no")
End == IsEvent("end") /\ Ck("trace complete", E.n = Len(Trace) - 1)

Next == More /\
   CASE E.op = "xform" -> Xform [] E.op = "roundtrip" -> Round [] E.op = "normals" -> Normals [] E.op = "posepoint" -> PosePoint
     [] E.op = "corr" -> Corr [] E.op = "hessian" -> Hess [] E.op = "cov" -> Cov [] E.op = "names" -> Names [] E.op = "end" -> End
=============================================================================
