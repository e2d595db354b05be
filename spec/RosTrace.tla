------------------------------ MODULE RosTrace ------------------------------
(***************************************************************************)
(* P03 (IMU samples), P04 (frame tree), P05 (conversions), P32             *)
(* (accumulated motion).                                                   *)
(***************************************************************************)
EXTENDS Rigid, TraceBase
VARIABLES tree, odo
vars == <<l, tree, odo>>
Init == l = 1 /\ tree = <<>> /\ odo = [ts |-> <<>>, ps |-> <<>>]
Keep == UNCHANGED <<tree, odo>>
Q4(q) == q
SameRot(q, R, tol) == MNearAbs(RotQ(q), R, tol)
UnitQ(q) == RLeq(RAbs(RSub(Norm(q), 1)), "1e-9")
ZeroQ(q) == \A i \in 1..4 : REq(q[i], 0)
PT(p) == MkT(RotQ(p.q), p.p)               \* a pose as a transform
TNear(A, B, tol, scale) == MNearAbs(Rot(A), Rot(B), tol) /\ VNearAbs(Trn(A), Trn(B), RMul(tol, RAdd(1, scale)))

\* ---- P03
ImuNear(x, y) == /\ (IF ZeroQ(y.q) THEN ZeroQ(x.q) ELSE SameRot(x.q, RotQ(y.q), "1e-9"))
                 /\ VNear(x.w, y.w, "1e-9") /\ VNear(x.a, y.a, "1e-9")
                 /\ MNear(x.qc, y.qc, "1e-9") /\ MNear(x.wc, y.wc, "1e-9") /\ MNear(x.ac, y.ac, "1e-9")
                 /\ x.t = y.t /\ x.f = y.f
ImuFrame == IsEvent("imuframe") /\ Keep /\
   LET R == RotQ(E.q) Rt == Tr(R) IN
   /\ Ck("orientation of the new frame", IF ZeroQ(E.i.q) THEN ZeroQ(E.out.q) ELSE SameRot(E.out.q, MMul(RotQ(E.i.q), R), "1e-9"))
   /\ Ck("angular velocity", VNear(E.out.w, MVec(Rt, E.i.w), "1e-9"))
   /\ Ck("linear acceleration", VNear(E.out.a, MVec(Rt, E.i.a), "1e-9"))
   /\ Ck("angular velocity covariance", MNear(E.out.wc, Congruence(Rt, E.i.wc), "1e-9"))
   /\ Ck("linear acceleration covariance", MNear(E.out.ac, Congruence(Rt, E.i.ac), "1e-9"))
   /\ Ck("orientation covariance", MNear(E.out.qc, Congruence(R, E.i.qc), "1e-9"))
   /\ Ck("stamp and frame kept", E.out.t = E.i.t /\ E.out.f = E.i.f)
   /\ Ck("changing back restores", ImuNear(E.back, E.i))
RX(a) == RotOf(<<a, 0, 0>>)
RY(a) == RotOf(<<0, a, 0>>)
RZ(a) == RotOf(<<0, 0, a>>)
Rpy == IsEvent("rpy") /\ Keep
   /\ Ck("angles about x, y, z compose to the orientation", SameRot(E.q, MMul(MMul(RX(E.out[1]), RY(E.out[2])), RZ(E.out[3])), "1e-7"))
   /\ Ck("same from the sample", E.out2 = E.out)
Slerp(a, b, f) ==
   LET d == RDot(a, b)
       s == IF RLt(d, 0) THEN -1 ELSE 1
       c == RAbs(d)
       th == RAcos(RMin(c, 1))
   IN IF RLt(RSub(1, "1e-14"), c) THEN VAdd(VScale(RSub(1, f), a), VScale(RMul(s, f), b))
      ELSE VAdd(VScale(RDiv(RSin(RMul(RSub(1, f), th)), RSin(th)), a), VScale(RMul(s, RDiv(RSin(RMul(f, th)), RSin(th))), b))
Lin(a, b, f) == VAdd(VScale(RSub(1, f), a), VScale(f, b))
ImuInterp == IsEvent("imuinterp") /\ Keep /\
   LET a == E.a b == E.b o == E.out IN
   IF RLt(E.t, a.t) \/ RLt(b.t, E.t) THEN Ck("outside the interval: refused", E.exc)
   ELSE /\ Ck("accepted", ~E.exc)
        /\ IF REq(a.t, b.t) THEN Ck("both samples at that time: the first", o = a)
           ELSE LET f == RDiv(RSub(E.t, a.t), RSub(b.t, a.t))
                    n == IF RLeq(f, "0.5") THEN a ELSE b
                    near(x) == o.qc = x.qc /\ o.wc = x.wc /\ o.ac = x.ac /\ o.f = x.f
                    d == RDot(a.q, b.q)
                IN /\ Ck("stamped with the requested time", o.t = E.t)
                   /\ Ck("angular velocity weighted by time", VNear(o.w, Lin(a.w, b.w, f), "1e-9"))
                   /\ Ck("acceleration weighted by time", VNear(o.a, Lin(a.a, b.a, f), "1e-9"))
                   /\ Ck("covariances and frame of the nearer sample", near(n) \/ (RLeq(RAbs(RSub(f, "0.5")), "1e-6") /\ (near(a) \/ near(b))))
                   /\ IF ZeroQ(a.q) \/ ZeroQ(b.q) THEN Ck("unknown orientation stays unknown", ZeroQ(o.q))
                      ELSE IF RLeq(RAbs(d), "1e-9") THEN Ck("a rotation", UnitQ(o.q))
                      ELSE Ck("orientation on the shortest arc, proportional to time", SameRot(o.q, RotQ(Slerp(a.q, b.q, f)), "1e-7"))
ImuNode == IsEvent("imunode") /\ Keep
   /\ Ck("one sample out", E.n = 1)
   /\ Ck("orientation rotated", IF ZeroQ(E.i.q) THEN ZeroQ(E.out.q) ELSE SameRot(E.out.q, MMul(E.R, RotQ(E.i.q)), "1e-9"))
   /\ Ck("rates, their covariances and stamp kept", E.out.w = E.i.w /\ E.out.a = E.i.a /\ E.out.wc = E.i.wc /\ E.out.ac = E.i.ac /\ E.out.t = E.i.t)
   /\ Ck("frame", E.out.f = IF E.over THEN "rotated" ELSE E.i.f)

\* ---- P04
F == INSTANCE Frames WITH Mul <- TMul, Inv <- TInv, Id <- IdT
MustRefuse == \/ E.kind # 0 \/ ~F!Unambiguous(E.nodes)
              \/ \E k \in DOMAIN E.nodes : E.nodes[k].bad \/ (E.missing /\ E.nodes[k].lookup)
SetOf(s) == {s[i] : i \in DOMAIN s}
FramesStart == IsEvent("frames") /\ UNCHANGED odo /\
   IF MustRefuse THEN Ck("refused: ambiguous or inconsistent configuration", E.exc) /\ tree' = <<>>
   ELSE /\ Ck("accepted", ~E.exc)
        /\ Ck("exactly the configured frames", Len(E.names) = Len(E.nodes) /\ SetOf(E.names) = {E.nodes[k].name : k \in DOMAIN E.nodes})
        /\ Ck("body frame", E.body = E.nodes[1].name /\ E.bodyid = E.nodes[1].id)
        /\ tree' = [nodes |-> E.nodes, missing |-> E.missing]
Nd(name) == tree.nodes[F!NodeOf(tree.nodes, name)]
TfPose(name) == LET k == CHOOSE k \in DOMAIN E.tf : E.tf[k].name = name IN E.tf[k].T
\* a dynamic frame is looked up at the time asked for, a static one comes from the configuration
Query(a, b) == IF Nd(a).dyn \/ Nd(b).dyn THEN TMul(TInv(TfPose(a)), TfPose(b)) ELSE F!Between(tree.nodes, a, b)
CanQuery(a, b) == F!Known(tree.nodes, a) /\ F!Known(tree.nodes, b) /\ ~(tree.missing /\ (Nd(a).dyn \/ Nd(b).dyn) /\ a # b)
Body == tree.nodes[1].name
F2F == IsEvent("f2f") /\ Keep /\
   LET ok == CanQuery(E.a, E.b)
       okb == CanQuery(Body, E.a)
       N2(A, B) == TNear(A, B, "1e-8", RAdd(50, VMaxAbs(Trn(B))))
   IN /\ Ck("unknown frames are refused, known ones answered", E.x1 = ~ok /\ E.x2 = ~ok /\ E.x3 = ~okb /\ E.x4 = ~okb)
      /\ (ok => /\ Ck("composition of the edges between the frames", N2(E.ab, Query(E.a, E.b)))
                /\ Ck("inverse of the reverse query", N2(TMul(E.ab, E.ba), IdT)))
      /\ (okb => /\ Ck("from the body", N2(E.ba_body, Query(Body, E.a)))
                 /\ Ck("to the body", N2(E.fb, Query(E.a, Body))))
NamesQ == IsEvent("names") /\ Keep /\
   LET byid == {k \in DOMAIN tree.nodes : E.id = tree.nodes[k].id \/ E.id \in SetOf(tree.nodes[k].aliases)}
   IN /\ Ck("frame of an id or alias, unknown ones refused", E.x1 = (byid = {}) /\ (\A k \in byid : E.frame = tree.nodes[k].name))
      /\ Ck("presence", E.has = F!Known(tree.nodes, E.name) /\ E.x2 = ~E.has /\ E.x3 = ~E.has)
      /\ (E.has => Ck("id and kind of a frame", E.fid = Nd(E.name).id /\ E.dyn = Nd(E.name).dyn /\ E.lk = Nd(E.name).lookup))
      /\ Ck("aliases", ~E.x4 /\ \A k \in DOMAIN tree.nodes : tree.nodes[k].id = E.aid => E.al = tree.nodes[k].aliases)
Static == IsEvent("static") /\ Keep /\
   LET N == tree.nodes
       fixed == {k \in 2..Len(N) : ~N[k].dyn /\ ~N[k].lookup}
       want == Len(F!Flatten([k \in DOMAIN N |-> N[k].aliases])) + Cardinality(fixed)
       of(p, c) == {i \in DOMAIN E.st : E.st[i].p = p /\ E.st[i].c = c}
   IN /\ Ck("accepted", ~E.exc)
      /\ Ck("one static transform per fixed frame and alias, none for looked-up or dynamic frames", Len(E.st) = want)
      /\ \A k \in fixed : Ck("frame in the body", \E i \in of(N[1].id, N[k].id) : TNear(E.st[i].T, F!Between(N, N[1].name, N[k].name), "1e-8", 50))
      /\ \A k \in DOMAIN N : \A j \in DOMAIN N[k].aliases : Ck("alias at its frame", \E i \in of(N[k].id, N[k].aliases[j]) : TNear(E.st[i].T, IdT, "1e-12", 1))
Service == IsEvent("service") /\ Keep
   /\ Ck("offered", E.there) /\ Ck("refused exactly when the direct query is", E.exc = E.exc2)
   /\ (~E.exc => Ck("same transform as the direct query", TNear(E.out, E.direct, "1e-8", 50)))

\* ---- P05.  Message covariances are row-major and ordered [translation, rotation]; ours [rotation, translation].
RowMajor(m, C) == Len(m) = Rows(C) * Cols(C) /\ \A i \in 1..Rows(C), j \in 1..Cols(C) : m[Cols(C) * (i - 1) + j] = C[i][j]
Sw(i) == ((i + 2) % 6) + 1
RowMajorSw(m, C) == Len(m) = 36 /\ \A i, j \in 1..6 : m[6 * (i - 1) + j] = C[Sw(i)][Sw(j)]
IsImuMsg(m, e) == m.h.t = e.t /\ m.h.f = e.f /\ m.q = e.q /\ m.w = e.w /\ m.a = e.a /\ RowMajor(m.qc, e.qc) /\ RowMajor(m.wc, e.wc) /\ RowMajor(m.ac, e.ac)
IsPoseMsg(m, e) == m.p = e.p /\ m.q = e.q
IsPoseCMsg(m, e) == IsPoseMsg(m.pose, e) /\ RowMajorSw(m.c, e.c)
IsTwistCMsg(m, e) == m.v = e.v /\ m.w = e.w /\ RowMajorSw(m.c, e.c)
Msg(c) == Ck("every field in its place", c)
Back(c) == Ck("converting back gives the value", c)
Conv == Keep /\
   \/ IsEvent("c_imu") /\ Msg(IsImuMsg(E.m, E.e)) /\ Back(E.back = E.e)
   \/ IsEvent("c_odom") /\ Msg(E.m.h.t = E.e.t /\ E.m.h.f = E.e.f /\ E.m.cf = E.e.cf /\ IsPoseCMsg(E.m.pose, E.e.pose) /\ IsTwistCMsg(E.m.twist, E.e.twist)) /\ Back(E.back = E.e)
   \/ IsEvent("c_posec") /\ Msg(IsPoseCMsg(E.m, E.e)) /\ Back(E.back = E.e)
   \/ IsEvent("c_posecs") /\ Msg(IsPoseCMsg(E.m, E.e) /\ E.h.t = E.t) /\ Back(E.back = E.e /\ E.bt = E.t)
   \/ IsEvent("c_poses") /\ Msg(IsPoseMsg(E.m, E.e) /\ E.h.t = E.t) /\ Back(E.back.p = E.e.p /\ E.back.q = E.e.q /\ E.bt = E.t)
   \/ IsEvent("c_pose") /\ Msg(IsPoseMsg(E.m, E.e)) /\ Back(E.back.p = E.e.p /\ E.back.q = E.e.q)
   \/ IsEvent("c_mat") /\ Msg(UnitQ(E.m.q) /\ TNear(PT(E.m), E.e, "1e-9", VMaxAbs(Trn(E.e))))
                       /\ Back(TNear(SubSeq(E.back, 1, 3), E.e, "1e-9", VMaxAbs(Trn(E.e))) /\ MNear(<<E.back[4]>>, <<<<0, 0, 0, 1>>>>, 0))
   \/ IsEvent("c_rot") /\ Msg(UnitQ(E.q) /\ SameRot(E.q, E.e, "1e-9")) /\ Back(MNearAbs(E.back, E.e, "1e-9"))
   \/ IsEvent("c_twistc") /\ Msg(IsTwistCMsg(E.m, E.e)) /\ Back(E.back = E.e) /\ Ck("blocks", E.wc = Block(E.e.c, 0, 0, 3, 3) /\ E.vc = Block(E.e.c, 3, 3, 3, 3))
   \/ IsEvent("c_twist") /\ Msg(E.v = E.e.v /\ E.w = E.e.w) /\ Back(E.back.v = E.e.v /\ E.back.w = E.e.w)
   \/ IsEvent("c_vec") /\ Msg(E.m = E.e) /\ Back(E.back = E.e)
   \/ IsEvent("c_cov") /\ IF Rows(E.e) # Cols(E.e) THEN Ck("not square: refused", E.exc)
                          ELSE Ck("accepted", ~E.exc) /\ Msg(E.dim = Rows(E.e) /\ RowMajor(E.m, E.e) /\ E.h.t = E.t /\ E.h.f = E.f) /\ Back(E.back = E.e /\ E.bt = E.t /\ E.bf = E.f)
   \/ IsEvent("c_covbad") /\ Ck("size does not fit the dimensions: refused", E.exc)
   \/ IsEvent("c_multi") /\ Ck("accepted", ~E.exc) /\ Ck("wrong dimensions refused", E.wrong) /\ Msg(RowMajor(E.m, E.e) /\ E.nd = 2 /\ E.dims = <<<<3, 15>>, <<5, 5>>>>) /\ Back(E.back = E.e)
   \/ IsEvent("c_gtsam") /\ Msg(MNearAbs(E.R, Rot(E.e), "1e-9") /\ VNear(E.t, Trn(E.e), "1e-12") /\ VNear(E.gp, TApply(E.e, E.p), "1e-8") /\ MNearAbs(E.R2, Rot(E.e), "1e-9"))
                         /\ Back(TNear(E.back, E.e, "1e-9", VMaxAbs(Trn(E.e))) /\ MNearAbs(E.back2, Rot(E.e), "1e-9"))
   \/ IsEvent("c_bias") /\ Msg(E.ma = E.a /\ E.mg = E.g /\ E.h.t = E.t /\ E.h.f = E.f) /\ Back(E.ba = E.a /\ E.bg = E.g)
   \/ IsEvent("c_imus") /\ Msg(Len(E.m) = Len(E.e) /\ \A i \in DOMAIN E.e : IsImuMsg(E.m[i], E.e[i])) /\ Back(E.back = E.e)
   \/ IsEvent("c_eq") /\ Ck("equal exactly when nothing differs", /\ E.odom = (E.k = 0) /\ E.imu = (E.k = 0) /\ E.pose = (E.k \notin {1, 2, 3}) /\ E.twist = (E.k \notin {4, 5, 6})
                                                                 /\ E.ps = (E.k \notin {1, 2, 3, 7}) /\ E.ts = (E.k \notin {4, 5, 6, 7}))
   \/ IsEvent("c_blocks") /\ Ck("covariance blocks in [rotation, translation] order",
            /\ Block(E.p.c, 3, 3, 3, 3) = E.A /\ Block(E.p.c, 0, 0, 3, 3) = E.B /\ Block(E.q.c, 3, 3, 3, 3) = E.A /\ Block(E.q.c, 0, 0, 3, 3) = E.B
            /\ MNear(Block(E.p.c, 0, 3, 3, 3), Zeros(3, 3), 0) /\ MNear(Block(E.p.c, 3, 0, 3, 3), Zeros(3, 3), 0) /\ MNear(Block(E.q.c, 0, 3, 3, 3), Zeros(3, 3), 0) /\ MNear(Block(E.q.c, 3, 0, 3, 3), Zeros(3, 3), 0)
            /\ E.p.p = E.ep.p /\ E.p.q = E.ep.q /\ E.q.v = E.eq.v /\ E.q.w = E.eq.w)

\* ---- P32
Applied(p, T, o) == /\ TNear(PT(o), TMul(PT(p), T), "1e-8", RAdd(VMaxAbs(p.p), VMaxAbs(Trn(T))))
                    /\ MNearAbs(o.c, ChangeCov(p.c, TInv(T)), RMul("1e-8", RMul(RAdd(1, MaxAbs(p.c)), RMul(RAdd(1, VMaxAbs(Trn(T))), RAdd(1, VMaxAbs(Trn(T)))))))
Apply == IsEvent("apply") /\ Keep
   /\ Ck("the motion is applied in the pose's own frame", Applied(E.p, E.T, E.a))
   /\ Ck("same for a pose as motion", Applied(E.p, E.T, E.b))
   /\ Ck("same for a stamped pose, stamp kept", Applied(E.p, E.T, E.c) /\ E.ct = E.t)
   /\ Ck("as a transform", TNear(E.tt, PT(E.p), "1e-9", VMaxAbs(E.p.p)))
\* odo: the stamps and the poses reached from the identity by the motions in turn
CombStart == IsEvent("combstart") /\ UNCHANGED tree /\ odo' = [ts |-> <<>>, ps |-> <<>>]
Combine == IsEvent("combine") /\ UNCHANGED tree /\
   LET n == Len(odo.ps) T0 == IF n = 0 THEN E.T ELSE TMul(odo.ps[n], E.T) 
       T == TLCEval([i \in DOMAIN T0 |-> [j \in DOMAIN T0[i] |-> RStr(T0[i][j])]])
       s == RAdd(10, VMaxAbs(Trn(T)))
       ts == Append(odo.ts, E.t) ps == Append(odo.ps, T)
   IN /\ Ck("one odometry and one path per motion", E.n = 1 /\ E.np = 1)
      /\ Ck("previous pose times the motion", TNear(PT(E.out.pose), T, "1e-7", s))
      /\ Ck("stamped with the motion's time", E.out.t = E.t)
      \* E.same poses are the same as in the path before, which was checked then
      /\ Ck("path: all poses so far, in order", E.len = n + 1 /\ E.same + Len(E.more) = n + 1
            /\ \A i \in DOMAIN E.more : E.more[i].t = ts[E.same + i] /\ TNear(PT(E.more[i].m), ps[E.same + i], "1e-7", s))
      /\ odo' = [ts |-> ts, ps |-> ps]
OdomTf == IsEvent("odomtf") /\ Keep
   /\ Ck("one transform per odometry", E.n = 1)
   /\ Ck("same stamp, frames and pose", E.h.t = E.e.t /\ E.h.f = E.e.f /\ E.cf = E.e.cf /\ E.m.p = E.e.pose.p /\ E.m.q = E.e.pose.q)
End == IsEvent("end") /\ Keep
Next == \/ ImuFrame \/ Rpy \/ ImuInterp \/ ImuNode \/ FramesStart \/ F2F \/ NamesQ \/ Static \/ Service \/ Conv \/ Apply \/ CombStart \/ Combine \/ OdomTf \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
