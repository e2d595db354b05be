-------------------------- MODULE RegistrationTrace --------------------------
(***************************************************************************)
(* P14 and part of P26: recorded runs of the real registration node.  The  *)
(* points of every scan and map are the same points of the world in the    *)
(* same order, far enough apart that what a matching must find is known:   *)
(* with everything in reach the motion that puts point i on point i, with  *)
(* everything out of reach the guess it started from.  c: the line of the  *)
(* configuration; s, g, m, o: the lines of scans, guesses, maps, motions.  *)
(***************************************************************************)
EXTENDS Registration, Cloud, TraceBase
VARIABLES c, s, g, m, o
vars == <<l, c, s, g, m, o>>
Init == l = 1 /\ c = 0 /\ s = <<>> /\ g = <<>> /\ m = <<>> /\ o = <<>>
Cfg == Trace[c]
Judges(p) == Cfg.grp = p
Start == IsEvent("reg") /\ c' = l /\ s' = <<>> /\ g' = <<>> /\ m' = <<>> /\ o' = <<>>
Refused == IsEvent("regcfg") /\ UNCHANGED <<c, s, g, m, o>> /\ Ck("refused exactly when it makes no sense", E.exc = (E.bad # ""))
Scan == IsEvent("scan") /\ s' = Append(s, l) /\ UNCHANGED <<c, g, m, o>>
Guess == IsEvent("guess") /\ g' = Append(g, l) /\ UNCHANGED <<c, s, m, o>>
Map == IsEvent("map") /\ m' = Append(m, l) /\ UNCHANGED <<c, s, g, o>>
XYZ(k) == LET q == Trace[k].c IN [i \in DOMAIN q |-> V3(q[i], 1)]
\* how far apart two rows of points are, against a reach
Apart(A, B) == [i \in DOMAIN A |-> Norm(VSub(A[i], B[i]))]
Reach(A, B, d) == LET D == TLCEval(Apart(A, B)) IN IF \A i \in DOMAIN A : RLt(D[i], RSub(d, "0.01")) THEN "in" ELSE IF \A i \in DOMAIN A : RLt(RAdd(d, "0.01"), D[i]) THEN "out" ELSE "unclear"
Image(T, A) == [i \in DOMAIN A |-> TApply(T, A[i])]
\* where the points of the newer scan must end up, or "unclear"
Target(k) == LET mo == Motion(k, Cfg.refine)
                 S == XYZ(s[mo.scan]) Q == XYZ(s[mo.prev])
                 start == TLCEval(Image(Trace[g[mo.guess]].T, S))
                 r1 == Reach(start, Q, Cfg.ds)
                 mid == TLCEval(CASE r1 = "in" -> Q [] r1 = "out" -> start [] OTHER -> <<>>)
             IN IF mid = <<>> \/ ~Cfg.refine THEN mid
                ELSE LET X == XYZ(m[mo.map]) r2 == Reach(mid, X, Cfg.dm)
                     IN CASE r2 = "in" -> X [] r2 = "out" -> mid [] OTHER -> <<>>
\* rotation vector of a rotation matrix (angles well below pi)
Log(R) == LET v == << RSub(R[3][2], R[2][3]), RSub(R[1][3], R[3][1]), RSub(R[2][1], R[1][2]) >>
              n == Norm(v)
              a == RAtan2(n, RSub(RAdd(R[1][1], RAdd(R[2][2], R[3][3])), 1))
          IN IF RLt(n, "1e-12") THEN VScale("0.5", v) ELSE VScale(RDiv(a, n), v)
Lin == Cfg.model \in {"POINT_TO_POINT_LINEARISED", "POINT_TO_PLANE_LINEARISED"}
Pln == Cfg.model \in {"POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"}
\* covariance of the motion T of the lidar that puts S onto Q (same index), and how well it is determined
Covariance(T, S, Q) ==
   LET J == TLCEval(RotJet(Lin, Log(Rot(T))))
       h == TLCEval([i \in DOMAIN S |-> Half(Pln, V3(Q[i], 4), J, Trn(T), V3(S[i], 1), V3(Q[i], 1))])
       H == TLCEval(MSumSeq([i \in DOMAIN S |-> h[i].H]))
       Hi == TLCEval(RMatInv(H))
       v1 == RMul(Cfg.s1, Cfg.s1) v2 == RMul(Cfg.s2, Cfg.s2)
       C == IF Cfg.method = "LLS" THEN MScale(v1, Hi)
            ELSE MMul(MMul(Hi, Noise(CASE Cfg.point = "RANGE" -> "range" [] Cfg.point = "RANGE_BIAS" -> "bias" [] OTHER -> "iid",
                                     [i \in DOMAIN S |-> h[i].Z], [i \in DOMAIN S |-> V3(S[i], 7) \o V3(Q[i], 7)], v1, v2)), Hi)
   IN [C |-> C, cond |-> RMul(MaxAbs(H), MaxAbs(Hi))]
Published(C) == ReorderCov(ChangeCov(C, Cfg.BL), 3)
CovOk(k, T) ==
   IF Cfg.method = "CONSTANT"
   THEN Ck("the configured covariance, in the body frame", MNearRel(E.C, Published(Mat(6, 6, LAMBDA i, j : IF i # j THEN 0 ELSE IF i <= 3 THEN RMul(Cfg.crot, Cfg.crot) ELSE RMul(Cfg.ctr, Cfg.ctr))), "1e-9"))
   ELSE k # Cfg.which \/
        LET mo == Motion(k, Cfg.refine)
            S == Trace[s[mo.scan]].c
            Q == Trace[IF Cfg.refine THEN m[mo.map] ELSE s[mo.prev]].c
            d == IF Cfg.refine THEN Cfg.dm ELSE Cfg.ds
        IN Reach(Image(T, XYZ(s[mo.scan])), [i \in DOMAIN Q |-> V3(Q[i], 1)], d) # "in" \/
           LET w == TLCEval(Covariance(T, S, Q))
           IN RLt("1e6", w.cond) \/ Ck("covariance of this registration, in the body frame", MNearRel(E.C, Published(w.C), RMul(w.cond, "2e-5")))
Moved2 == IsEvent("moved") /\ o' = Append(o, l) /\ UNCHANGED <<c, s, g, m>> /\ (Judges("P14") =>
   LET k == Len(o) + 1
       B == MkT(RotQ(E.q), E.p)
       T == TLCEval(ChangeFrame(B, TInv(Cfg.BL)))
   IN /\ Ck("one motion per pair of scans, and what it needs is there", k <= Possible(Len(s), Len(g), Len(m), Cfg.refine))
      /\ Ck("stamp of the newer scan", E.t = Trace[s[k + 1]].t)
      /\ Ck("frame of the body", E.f = Cfg.f)
      /\ LET W == TLCEval(Target(k))
             A == Image(T, XYZ(s[k + 1]))
         IN /\ Ck("motion from the previous scan, its guess and its map", W = <<>> \/ \A i \in DOMAIN A : VNearAbs(A[i], W[i], "1e-3"))
            /\ CovOk(k, T))
Settled == IsEvent("settled") /\ UNCHANGED <<c, s, g, m, o>> /\ (Judges("P14") =>
   /\ Ck("nothing failed", ~E.exc)
   /\ Ck("a motion for every pair of scans", Len(o) = Possible(Len(s), Len(g), Len(m), Cfg.refine)))
\* ---- P26
Stopped == IsEvent("stopped") /\ UNCHANGED <<c, s, g, m, o>> /\ (Judges("P26") => /\ Ck("every waiting callback returns", E.left = 0) /\ Ck("and leaves no lock behind", E.locked = 0) /\ Ck("and gives back only what it holds", E.misused = 0))
End == IsEvent("end") /\ UNCHANGED <<c, s, g, m, o>>
Next == Start \/ Refused \/ Scan \/ Guess \/ Map \/ Moved2 \/ Settled \/ Stopped \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
