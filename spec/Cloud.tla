-------------------------------- MODULE Cloud --------------------------------
(***************************************************************************)
(* Point clouds under rigid motion, correspondences between clouds, and    *)
(* the covariance of a registration (Censi 2007).                          *)
(***************************************************************************)
EXTENDS Rigid, Integers, FiniteSets

Act(T, p) == VAdd(MVec(Rot(T), p), Trn(T))
Valid(p) == RFinite(p[1]) /\ RFinite(p[2]) /\ RFinite(p[3])
V3(p, k) == << p[k], p[k+1], p[k+2] >>

\* A point is <<x, y, z, nx, ny, nz, curvature, ...>>; "unit" points end in a beam direction, "cov" points in the
\* upper triangle of a 3x3 covariance.
Sym3(c) == << <<c[1], c[2], c[3]>>, <<c[2], c[4], c[5]>>, <<c[3], c[5], c[6]>> >>
Upper(M) == << M[1][1], M[1][2], M[1][3], M[2][2], M[2][3], M[3][3] >>
MovedExtra(type, T, p) ==
   CASE type = "normal" -> <<>>
     [] type = "unit" -> MVec(Rot(T), V3(p, 8))
     [] type = "cov" -> Upper(MMul(MMul(Rot(T), Sym3(SubSeq(p, 8, 13))), Tr(Rot(T))))
Moved(type, T, p) == Act(T, V3(p, 1)) \o MVec(Rot(T), V3(p, 4)) \o <<p[7]>> \o MovedExtra(type, T, p)

\* ---- correspondences: I is the sequence of source indices (from 0) taking part
Dist2(a, b) == LET d == VSub(a, b) IN RDot(d, d)
Aligned(T, src) == [i \in 1..Len(src) |-> Act(T, src[i])]
MinD2(S, D(_)) == CHOOSE m \in {D(k) : k \in S} : \A k \in S : RLeq(m, D(k))

\* ---- covariance of a registration.  x = <<r1,r2,r3,t1,t2,t3>>: rotation vector and translation; z = <<p, q>>.
\* R(r) is the exponential of [r]x (or its linearisation); its derivatives are central differences with a step
\* of 10^-10, exact to about 20 digits in the 45-digit arithmetic used.
RotVec(lin, r) ==
   IF lin THEN MAdd(Eye(3), Skew(r))
   ELSE LET a2 == RDot(r, r)
            a == RSqrt(a2)
            S == Skew(r)
        IN IF RLt(a2, "1e-36") THEN MAdd(Eye(3), MAdd(S, MScale("0.5", MMul(S, S))))
           ELSE MAdd(Eye(3), MAdd(MScale(RDiv(RSin(a), a), S), MScale(RDiv(RSub(1, RCos(a)), a2), MMul(S, S))))
hh == "1e-10"
Bump(r, i, s) == [r EXCEPT ![i] = RAdd(@, RMul(s, hh))]
\* all derivatives of R at r up to second order
RotJet(lin, r) ==
   LET R0 == RotVec(lin, r)
       Pl == [i \in 1..3 |-> RotVec(lin, Bump(r, i, 1))]
       Mi == [i \in 1..3 |-> RotVec(lin, Bump(r, i, -1))]
       D1 == [i \in 1..3 |-> MScale(RDiv(1, RMul(2, hh)), MSub(Pl[i], Mi[i]))]
       D2(i, j) ==
          IF i = j THEN MScale(RDiv(1, RMul(hh, hh)), MSub(MAdd(Pl[i], Mi[i]), MScale(2, R0)))
          ELSE MScale(RDiv(1, RMul(4, RMul(hh, hh))),
                 MSub(MAdd(RotVec(lin, Bump(Bump(r, i, 1), j, 1)), RotVec(lin, Bump(Bump(r, i, -1), j, -1))),
                      MAdd(RotVec(lin, Bump(Bump(r, i, 1), j, -1)), RotVec(lin, Bump(Bump(r, i, -1), j, 1)))))
       U12 == D2(1, 2) U13 == D2(1, 3) U23 == D2(2, 3)
   IN [R |-> R0, D1 |-> D1, D2 |-> << <<D2(1, 1), U12, U13>>, <<U12, D2(2, 2), U23>>, <<U13, U23, D2(3, 3)>> >>]
UnitV(k) == [i \in 1..3 |-> IF i = k THEN 1 ELSE 0]
\* plane: residual is (n . e) n, else e, with e = R p + t - q.  W projects: inner product <u, v>_W
Half(plane, n, J, t, p, q) ==
   LET e == VSub(VAdd(MVec(J.R, p), t), q)
       In(u, v) == IF plane THEN RMul(RDot(n, u), RDot(n, v)) ELSE RDot(u, v)
       Je == [i \in 1..6 |-> IF i <= 3 THEN MVec(J.D1[i], p) ELSE UnitV(i - 3)]
       colR(M, k) == << M[1][k], M[2][k], M[3][k] >>
       de == [k \in 1..6 |-> IF k <= 3 THEN colR(J.R, k) ELSE VScale(-1, UnitV(k - 3))]
   IN [H |-> [i \in 1..6 |-> [j \in 1..6 |-> RAdd(In(Je[i], Je[j]), IF i <= 3 /\ j <= 3 THEN In(e, MVec(J.D2[i][j], p)) ELSE 0)]],
       Z |-> [i \in 1..6 |-> [k \in 1..6 |-> RAdd(In(de[k], Je[i]), IF i <= 3 /\ k <= 3 THEN In(e, colR(J.D1[i], k)) ELSE 0)]]]
MSumSeq(s) == LET F[k \in 1..Len(s)] == IF k = 1 THEN s[1] ELSE MAdd(F[k-1], s[k]) IN F[Len(s)]
Outer(u, v) == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]]
\* measurement noise carried through Z (6x6 per correspondence), units u_k = <<source beam, target beam>>
Noise(method, Zs, Us, v1, v2) ==
   LET n == Len(Zs)
       blk(k) == [i \in 1..6 |-> [j \in 1..6 |-> IF (i <= 3) = (j <= 3) THEN RMul(Us[k][i], Us[k][j]) ELSE 0]]
       dg(k) == [i \in 1..6 |-> [j \in 1..6 |-> IF i = j THEN RMul(Us[k][i], Us[k][i]) ELSE 0]]
       zu == LET s == [k \in 1..n |-> <<MVec(Zs[k], Us[k])>>] IN MSumSeq(s)[1]
   IN CASE method = "iid" -> MScale(v1, MSumSeq([k \in 1..n |-> MMul(Zs[k], Tr(Zs[k]))]))
        [] method = "range" -> MScale(v1, MSumSeq([k \in 1..n |-> MMul(MMul(Zs[k], blk(k)), Tr(Zs[k]))]))
        [] method = "bias" -> MAdd(MScale(v1, MSumSeq([k \in 1..n |-> MMul(MMul(Zs[k], dg(k)), Tr(Zs[k]))])), MScale(v2, Outer(zu, zu)))
=============================================================================
