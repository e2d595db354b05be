----------------------------- MODULE EigenTrace -----------------------------
(***************************************************************************)
(* P01 and P02: every recorded call of the geometry and covariance library *)
(* must be the one the Rigid module defines.  Tolerances are for double    *)
(* (or, where e.f is TRUE, float) rounding only.                           *)
(***************************************************************************)
EXTENDS Rigid, TraceBase

Tol(e) == IF e.f THEN "2e-4" ELSE "1e-8"
TS(T) == RAdd(1, VMaxAbs(Trn(T)))       \* scale of a transform's translation
TNear(A, B, tol, scale) == /\ MNearAbs(Rot(A), Rot(B), tol)
                           /\ VNearAbs(Trn(A), Trn(B), RMul(tol, scale))
TwoPi == RPi(2)

Ok(e) ==
  CASE e.op = "end" -> Ck("trace truncated", e.n = Len(Trace) - 1)
    [] e.op = "relative" ->
         /\ Ck("first pose * relative = second pose", TNear(TMul(e.A, e.out), e.B, Tol(e), RAdd(TS(e.A), TS(e.B))))
         /\ Ck("relative = inverse(first) * second", TNear(e.out, Relative(e.A, e.B), Tol(e), RAdd(TS(e.A), TS(e.B))))
    [] e.op = "chframe" ->
         Ck("motion of the other frame", TNear(e.out, ChangeFrame(e.rel, e.T), Tol(e), RAdd(TS(e.rel), TS(e.T))))
    [] e.op = "chframe_back" ->
         Ck("changing back restores", TNear(e.out, e.rel, Tol(e), RMul(4, RAdd(TS(e.rel), TS(e.T)))))
    [] e.op = "adj" -> Ck("adjoint", MNearAbs(e.out, Adj(e.T), RMul(Tol(e), TS(e.T))))
    [] e.op = "twist" -> Ck("twist in the other frame",
                            VNearAbs(e.out, MVec(Adj(e.T), e.V), RMul(Tol(e), RMul(TS(e.T), RAdd(1, VMaxAbs(e.V))))))
    [] e.op = "rates" ->
         IF RLeq(e.dt, 0) THEN Ck("dt <= 0 refused", e.exc)
         ELSE /\ Ck("accepted", ~e.exc)
              /\ LET rel == Relative(e.A, e.B)
                     w == SubSeq(e.out, 1, 3)
                     v == SubSeq(e.out, 4, 6)
                     wd == VScale(e.dt, w)
                 IN /\ Ck("finite", VFinite(e.out))
                    /\ Ck("angular rate reproduces the rotation",
                          MNearAbs(RotOf(wd), Rot(rel), IF e.f THEN "2e-3" ELSE "1e-6"))
                    /\ Ck("shortest rotation", RLeq(Norm(wd), RAdd(RPi(1), "1e-4")))
                    /\ Ck("linear rate reproduces the translation",
                          VNearAbs(VScale(e.dt, v), Trn(rel), RMul(Tol(e), RAdd(TS(e.A), TS(e.B)))))
    [] e.op = "mktransform" -> /\ Ck("rotation", MNearAbs(Rot(e.out), RotQ(e.q), Tol(e)))
                               /\ Ck("translation", VNearAbs(Trn(e.out), e.t, RMul(Tol(e), RAdd(1, VMaxAbs(e.t)))))
    [] e.op = "skew" -> Ck("skew matrix", MNear(e.out, Skew(e.v), "1e-15"))
    [] e.op = "unskew" ->
         IF \A i \in 1..3, j \in 1..3 : REq(e.M[i][j], RNeg(e.M[j][i]))
         THEN Ck("accepted", ~e.exc) /\ Ck("vector of the skew matrix", MNear(Skew(e.out), e.M, "1e-15"))
         ELSE Ck("a matrix that is not skew-symmetric is refused", e.exc)
    [] e.op = "polar" ->
         IF REq(e.p[1], 0) /\ REq(e.p[2], 0) THEN Ck("no azimuth: refused", e.exc)
         ELSE LET r == e.out[1] a == e.out[2] el == e.out[3]
                  tol == IF e.f THEN "2e-3" ELSE "1e-6"
                  s == RAdd("1e-6", Norm(e.p))
              IN /\ Ck("accepted", ~e.exc)
                 /\ Ck("finite", VFinite(e.out))
                 /\ Ck("range", RLeq(RAbs(RSub(r, Norm(e.p))), RMul(s, tol)))
                 /\ Ck("angles in their ranges", RLeq(0, a) /\ RLeq(a, RAdd(TwoPi, "1e-6")) /\ RLeq(0, el) /\ RLeq(el, RAdd(RPi(1), "1e-6")))
                 /\ Ck("converts back", VNearAbs(<< RMul(r, RMul(RSin(el), RCos(a))), RMul(r, RMul(RSin(el), RSin(a))), RMul(r, RCos(el)) >>,
                                                 e.p, RMul(s, tol)))
    [] e.op = "normalise" ->
         IF REq(Norm2(e.v), 0) THEN Ck("zero vector refused", e.exc)
         ELSE Ck("accepted", ~e.exc) /\ Ck("unit vector along v", VNear(e.out, VScale(RDiv(1, Norm(e.v)), e.v), Tol(e)))
    [] e.op = "interp" -> Ck("linear interpolation",
                             MNearAbs(e.out, MAdd(MScale(RSub(1, e.x), e.A), MScale(e.x, e.B)),
                                      RMul("1e-12", RMul(RAdd(1, RAbs(e.x)), RAdd(1, RAdd(MaxAbs(e.A), MaxAbs(e.B)))))))
    [] e.op = "posdiag" -> Ck("positive diagonal", e.out = (\A i \in 1..Len(e.M) : RLt(0, e.M[i][i])))
    [] e.op = "precomputed" ->      \* from a transform, or from rotation vector and translation
         LET want == IF e.from = "matrix" THEN e.T ELSE MkT(RotOf(e.r0), e.t0)
             tol == IF e.f THEN "1e-3" ELSE "1e-6"
         IN /\ Ck("finite", VFinite(e.r) /\ MFinite(e.Tm) /\ RFinite(e.a))
            /\ Ck("T", TNear(e.Tm, want, tol, TS(want)))
            /\ Ck("R", MNearAbs(e.R, Rot(want), tol))
            /\ Ck("t", VNearAbs(e.t, Trn(want), RMul(tol, TS(want))))
            /\ Ck("rotation vector", MNearAbs(RotOf(e.r), Rot(want), tol))
            /\ Ck("angle", RNear(e.a, Norm(e.r), tol))
            /\ Ck("sin, cos", RLeq(RAbs(RSub(e.sina, RSin(e.a))), tol) /\ RLeq(RAbs(RSub(e.cosa, RCos(e.a))), tol))
    \* ---- P02
    [] e.op = "reorder" ->
         IF e.b <= 0 \/ e.b >= Len(e.C) THEN Ck("boundary out of range refused", e.exc)
         ELSE Ck("accepted", ~e.exc) /\ Ck("blocks swapped", MNear(e.out, ReorderCov(e.C, e.b), 0))
    [] e.op = "chcov" ->
         Ck("adj C adj^T", MNearAbs(e.out, ChangeCov(e.C, e.T), RMul(Tol(e), RMul(RMul(TS(e.T), TS(e.T)), RAdd(1, MaxAbs(e.C))))))
    [] e.op = "compose" ->
         LET s == RMul(RMul(TS(e.T), TS(e.T)), RAdd(1, RAdd(MaxAbs(e.P), RAdd(MaxAbs(e.Q), MaxAbs(e.X)))))
         IN Ck("covariance of the composition", MNearAbs(e.out, ComposeCov(e.P, e.Q, e.T, e.X), RMul(Tol(e), s)))
    [] e.op = "rotcov" ->
         Ck("R C R^T", MNearAbs(e.out, RotateCov(e.C, e.R), RMul(Tol(e), RAdd(1, MaxAbs(e.C)))))
    [] e.op = "valid" -> Ck("valid covariance", e.out = ValidCov(e.C, e.prec))
    [] e.op = "nonsquare" -> Ck("a matrix that is not square is not a covariance", (~e.valid) /\ e.reorder_exc)
    [] e.op = "pd" -> Ck("positive definite", e.out = PD(e.C))
    [] e.op = "sym" -> Ck("symmetric", e.out = Symmetric(e.C, e.prec))
    [] OTHER -> FALSE

Init == l = 1
Next == More /\ Ok(E) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
