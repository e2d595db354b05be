----------------------------- MODULE FrontTrace -----------------------------
(***************************************************************************)
(* P17: recorded preintegration calls.  P18, P19, P20 (and the front-end   *)
(* part of P26): recorded runs of the real front end.  w remembers where   *)
(* in the trace each message was handed over or came out (line numbers);   *)
(* what the streams as a whole owe is judged once nothing moves any more,  *)
(* so it does not depend on the order in which callbacks took turns.       *)
(***************************************************************************)
EXTENDS Front, Rigid, TraceBase
VARIABLE w
vars == <<l, w>>
W0 == [cfg |-> 0, prev |-> 0, n |-> 0, imu |-> <<>>, at |-> 0, scan |-> <<>>, frame |-> <<>>, baro |-> <<>>, reply |-> <<>>, tf |-> <<>>, pose |-> <<>>, init |-> <<>>, s2s |-> <<>>, cloud |-> <<>>, press |-> <<>>, image |-> <<>>]
Init == l = 1 /\ w = W0
Keep == UNCHANGED w
Log(f) == w' = [w EXCEPT ![f] = Append(@, l)]
Cfg == Trace[w.cfg]
Judges(p) == Cfg.grp = p
Sec(us) == RMul(us, "1e-6")

\* ---- P17
\* the part of [a, b) that sample i stands for, in ticks
Span(t, i, a, b) == LET from == IF t[i] > a THEN t[i] ELSE a
                        to == IF i < Len(t) /\ t[i + 1] < b THEN t[i + 1] ELSE b
                    IN IF to > from THEN to - from ELSE 0
Used(seg, k) == RSum([j \in DOMAIN seg |-> IF seg[j][1] = k THEN RReal(seg[j][2]) ELSE RReal(0)])
Integ == IsEvent("integ") /\ Keep /\
   IF E.a = E.b THEN Ck("nothing to integrate", ~E.exc /\ E.seg = <<>>)
   ELSE IF E.b < E.a THEN Ck("an end before the start contributes nothing", E.exc \/ E.seg = <<>>)
   ELSE IF Len(E.t) < 2 \/ E.t[1] > E.a THEN Ck("refused: no sample stands at the start", E.exc)
   ELSE /\ Ck("accepted", ~E.exc)
        /\ Ck("rates and accelerations of the same samples", \A j \in DOMAIN E.seg : E.seg[j][1] \in DOMAIN E.t)
        /\ \A k \in DOMAIN E.t : Ck("each sample for exactly the time it stands", RNear(Used(E.seg, k), RMul(E.unit, Span(E.t, k, E.a, E.b)), "1e-12"))
        /\ Ck("in time order", \A i, j \in DOMAIN E.seg : i < j => E.seg[i][1] <= E.seg[j][1])
        /\ Ck("as long as the interval", RNear(E.dt, RMul(E.unit, E.b - E.a), "1e-9"))
Union == IsEvent("union") /\ Keep /\ Ck("both or neither accepted", E.exc = E.exc2)
   /\ (~E.exc => \A k \in DOMAIN E.t : Ck("two adjacent intervals are their union", RNear(Used(E.seg, k), Used(E.seg2, k), "1e-12")))
DelOld == IsEvent("delold") /\ Keep /\ Ck("exactly the samples before the time are dropped", E.out = SelectSeq(E.t, LAMBDA x : x >= E.d))
Linear(va, vb, ta, tb, t) == RAdd(va, RMul(RDiv(RSub(t, ta), RSub(tb, ta)), RSub(vb, va)))
Between(a, b, o, t) == /\ RNear(o.p, Linear(a.p, b.p, a.t, b.t, t), "1e-9") /\ RNear(o.v, Linear(a.v, b.v, a.t, b.t, t), "1e-9")
PressureCall == IsEvent("pressure") /\ Keep /\
   IF RLeq(E.b.t, E.a.t) \/ RLt(E.t, E.a.t) \/ RLt(E.b.t, E.t) THEN Ck("never extrapolated", E.exc)
   ELSE Ck("accepted", ~E.exc) /\ Ck("linear in time", Between(E.a, E.b, E.o, E.t)) /\ Ck("its time and the first one's frame", E.o.t = E.t /\ E.o.f = E.a.f)
ParamsCall == IsEvent("params") /\ Keep /\ Ck("unusable noise is refused, usable noise accepted", E.exc = E.bad)
   /\ (~E.bad => Ck("noise as given", MNear(E.Ao, E.A, "1e-12") /\ MNear(E.Go, E.G, "1e-12")))

\* ---- motions: where a body that is at R, p with velocity v now will be d seconds on
Down == <<0, 0, RNeg(Cfg.g)>>
RotAfter(R, d) == IF Cfg.spin THEN MMul(R, RotOf(VScale(d, Cfg.w))) ELSE R
AccOf(R) == VAdd(MVec(R, Cfg.A), Down)
VelAfter(R, v, d) == IF Cfg.spin THEN v ELSE VAdd(v, VScale(d, AccOf(R)))
PosAfter(R, p, v, d) == LET q == VAdd(p, VScale(d, v)) IN IF Cfg.spin THEN q ELSE VAdd(q, VScale(RMul("0.5", RMul(d, d)), AccOf(R)))
Fits(o, R, p, v, d) == LET s == RMul("1e-6", RAdd(1, RAdd(VMaxAbs(p), RMul(d, VMaxAbs(v))))) IN
   /\ MNearAbs(RotQ(o.q), RotAfter(R, d), "1e-6") /\ VNearAbs(o.p, PosAfter(R, p, v, d), s) /\ VNearAbs(o.v, VelAfter(R, v, d), s)
\* orientation of the body from that the sensor reports
Unknown(q) == \A i \in 1..4 : REq(q[i], 0)
FlipX == << <<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>> >>
Attitude(q, ned) == IF Unknown(q) THEN Eye(3) ELSE LET R == MMul(RotQ(q), Tr(Rot(Cfg.BI))) IN IF ned THEN MMul(FlipX, R) ELSE R

\* ---- P17: the integration node
INode == IsEvent("inode") /\ w' = [W0 EXCEPT !.cfg = l]
IStep == IsEvent("istep") /\
   LET d == Sec(E.t - w.at) o == E.odo[1] IN
   IF w.n = 0 THEN Ck("the first sample starts the integration", ~E.exc /\ E.odo = <<>> /\ E.np = 0) /\ w' = [w EXCEPT !.n = 1, !.at = E.t, !.prev = E.t]
   ELSE IF E.t = w.prev THEN Ck("no time passed: refused", E.exc /\ E.odo = <<>> /\ E.np = 0) /\ Keep
   ELSE /\ Ck("one odometry and one path per sample", ~E.exc /\ Len(E.odo) = 1 /\ E.np = 1)
        /\ Ck("the initial state moved by all motion measured since", Fits(o, Attitude(Cfg.q, FALSE), Cfg.p0, Cfg.v0, d))
        /\ Ck("stamped with the sample's time", o.t = E.t /\ E.pt = E.t)
        /\ Ck("measured rate", VNear(o.w, E.w, "1e-12"))
        /\ Ck("the path grows by that pose", E.len = w.n /\ E.tail = << o.p, o.q >>)
        /\ w' = [w EXCEPT !.n = @ + 1, !.prev = E.t]

\* ---- the front end: streams
Start == IsEvent("front") /\ w' = [W0 EXCEPT !.cfg = l]
Imu == IsEvent("imu") /\ w' = [w EXCEPT !.imu = Append(@, l), !.at = Len(w.tf)]
Scan == IsEvent("scan") /\ Log("scan")
Frame == IsEvent("frame") /\ Log("frame")
Baro == IsEvent("baro") /\ Log("baro")
Reply == IsEvent("reply") /\ Log("reply")
InitialOut == IsEvent("initial") /\ Log("init")
S2SOut == IsEvent("s2s") /\ Log("s2s")
CloudOut == IsEvent("cloud") /\ Log("cloud")
PressOut == IsEvent("press") /\ Log("press")
ImageOut == IsEvent("image") /\ Log("image")
\* the optimiser's reply is taken up: the transform and the pose to base_link
ReplyT(k) == LET o == Trace[w.reply[k]].o IN MkT(RotQ(o.q), o.p)
\* base_link in the body frame at a time; vk: how fast it moves there (0: fixed)
BKAt(t) == MkT(Rot(Cfg.BK), VAdd(Trn(Cfg.BK), VScale(Sec(t), Cfg.vk)))
BaseLink(k) == TMul(ReplyT(k), BKAt(Trace[w.reply[k]].o.t))
IsBaseLink(k, p, q) == LET T == BaseLink(k) IN MNearAbs(RotQ(q), Rot(T), "1e-9") /\ VNearAbs(p, Trn(T), RMul("1e-9", RAdd(1, VMaxAbs(Trn(T)))))
RowsOf(c) == Mat(6, 6, LAMBDA i, j : c[6 * (i - 1) + j])
TfOut == IsEvent("tf") /\ Log("tf") /\ (Judges("P20") =>
   LET k == Len(w.tf) + 1 IN /\ Ck("one transform per reply", k <= Len(w.reply))
      /\ Ck("map to base_link: the optimised pose and the mounting", IsBaseLink(k, E.p, E.q))
      /\ Ck("its time and frames", E.t = Trace[w.reply[k]].o.t /\ E.f = Cfg.map /\ E.cf = Cfg.kid))
PoseOut == IsEvent("pose") /\ Log("pose") /\ (Judges("P20") =>
   LET k == Len(w.pose) + 1
       c == ReorderCov(RowsOf(Trace[w.reply[k]].c), 3) IN
      /\ Ck("one pose per reply", k <= Len(w.reply))
      /\ Ck("pose of base_link in the map", IsBaseLink(k, E.p, E.q))
      /\ Ck("its time and frame", E.t = Trace[w.reply[k]].o.t /\ E.f = Cfg.map)
      /\ Ck("covariance of that pose", MNearRel(ReorderCov(RowsOf(E.c), 3), ChangeCov(c, TInv(BKAt(E.t))), "1e-8")))
\* a sample has been handled: it met the reply of w.at, or one taken up since
Live(o, k) == LET r == Trace[w.reply[k]].o IN Fits(o, RotQ(r.q), r.p, r.v, Sec(o.t - r.t))
ImuDone == IsEvent("imudone") /\ Keep /\ (Judges("P20") =>
   /\ Ck("nothing before the first reply, one odometry per sample after it", Len(E.odo) \in (IF Len(w.tf) = 0 THEN {0} ELSE IF w.at = 0 THEN {0, 1} ELSE {1}))
   /\ (Len(E.odo) = 1 => LET o == E.odo[1] IN
         /\ Ck("the latest optimised state moved by the motion since", \E k \in (IF w.at = 0 THEN 1 ELSE w.at)..Len(w.tf) : Live(o, k))
         /\ Ck("stamped with the sample's time", o.t = E.t)
         /\ Ck("body in the map", o.f = Cfg.map /\ o.cf = Cfg.bodyid)
         /\ Ck("rate of the body, without the bias", VNearAbs(o.w, Cfg.w, "1e-9"))))
Threw == IsEvent("threw") /\ Keep /\ Ck("no callback fails", FALSE)

\* ---- what the streams owe, once nothing moves
At(s) == [i \in DOMAIN s |-> Trace[s[i]]]
Times(s) == [i \in DOMAIN s |-> Trace[s[i]].t]
Sorted(S) == InOrder(S)
FrameTimes == Sorted({Trace[w.frame[i]].t : i \in DOMAIN w.frame})
ImuTimes == [i \in DOMAIN w.imu |-> Trace[w.imu[i]].m.t]
ScanTimes == Times(w.scan)
RECURSIVE Greatest(_)
Greatest(s) == IF Len(s) = 1 THEN RReal(s[1]) ELSE RMax(s[1], Greatest(Tail(s)))
Sweep(k) == Greatest(Trace[w.scan[k]].pt)                               \* seconds
TickUs == 15625
SweepUs(k) == LET n == RFloor(RAdd("0.5", RDiv(Sweep(k), "0.015625"))) IN (CHOOSE i \in 0..1000 : REq(i, n)) * TickUs
Settled == IsEvent("settled") /\ Keep /\
   LET S == ScanTimes F == FrameTimes I == ImuTimes
       N == Len(w.cloud)
       T == [k \in 1..(Len(S) - 1) |-> IF Cfg.stereo THEN StateTime(F, S[k], S[k + 1]) ELSE S[k]]
       Chosen(k) == Len(S) > k /\ (Cfg.stereo => FrameKnown(F, S[k]))     \* state k has its time
       Placed(k) == Chosen(k) /\ Last(I) >= T[k]                           \* and its samples
       Ready(k) == Placed(k) /\ Last(I) >= S[k] + SweepUs(k)               \* and its sweep
       InBody(k) == LET r == Trace[w.reply[IF k = 1 THEN 1 ELSE k - 1]].o     \* the scan's motion, seen from the body at its start
                        R0 == RotQ(r.q)
                        ds == IF k = 1 THEN 0 ELSE Sec(S[k] - r.t)
                        R == RotAfter(R0, ds)  v == VelAfter(R0, r.v, ds)
                        d == Sweep(k)
                    IN MkT(MMul(Tr(R), RotAfter(R, d)), MVec(Tr(R), PosAfter(R, <<0, 0, 0>>, v, d)))
       LB == Rot(TInv(Cfg.BL))
       Moved(k) == LET M == ChangeFrame(InBody(k), TInv(Cfg.BL))
                       t == IF Cfg.mdct THEN Trn(M) ELSE <<0, 0, 0>>
                       rv == IF Cfg.mdcr THEN MVec(LB, VScale(Sweep(k), Cfg.w)) ELSE <<0, 0, 0>>
                   IN [t |-> t, rv |-> rv]
       Part(m, f) == MkT(RotOf(VScale(f, m.rv)), VScale(f, m.t))
       Point(e, i) == << e.pts[1][i], e.pts[2][i], e.pts[3][i] >>
       Deskewed(k) == LET e == Trace[w.scan[k]] o == Trace[w.cloud[k]] m == Moved(k) d == Sweep(k)
                          to == TInv(Part(m, RDiv(Sec(T[k] - S[k]), d)))
                      IN /\ Len(o.pts[1]) = Len(e.pts[1])
                         /\ \A i \in DOMAIN e.pts[1] :
                              LET q == TApply(TMul(to, Part(m, RDiv(e.pt[i], d))), Point(e, i))
                              IN VNearAbs(Point(o, i), q, RMul("2e-6", RAdd(1, RAdd(VMaxAbs(Point(e, i)), RAdd(VMaxAbs(m.t), VMaxAbs(q))))))
       Same(m, e) == /\ VNear(m.w, e.w, "1e-12") /\ VNear(m.a, e.a, "1e-12") /\ VNear(m.q, e.q, "1e-12") /\ REq(m.c[1], e.c[1])
                     /\ IF Cfg.over THEN RNear(m.c[2], "0.0009", "1e-12") /\ RNear(m.c[3], "0.0025", "1e-12") ELSE REq(m.c[2], e.c[2]) /\ REq(m.c[3], e.c[3])
       FirstOdo == LET e == Trace[w.init[1]] IN
            /\ Ck("starts at the configured position and velocity", VNear(e.o.p, Cfg.p0, "1e-12") /\ VNear(e.o.v, Cfg.v0, "1e-12"))
            /\ Ck("attitude from the IMU", MNearAbs(RotQ(e.o.q), Attitude(Cfg.q, Cfg.ref = "NED"), "1e-9"))
            /\ Ck("configured uncertainty", (\A i \in 1..3 : RNear(e.pc[i], RMul(Cfg.np, Cfg.np), "1e-9") /\ RNear(e.pc[i + 3], RMul(Cfg.nr, Cfg.nr), "1e-9") /\ RNear(e.vc[i], RMul(Cfg.nv, Cfg.nv), "1e-9")) /\ REq(e.off, 0))
            /\ Ck("stamped with the first state's time, body in the map", e.o.t = T[1] /\ e.o.f = Cfg.map /\ e.o.cf = Cfg.bodyid)
       States ==
         /\ Ck("a state for every scan whose successor, frame, sweep and reply are there", \A k \in 1..N : Ready(k))
         /\ Ck("no state outstanding", ~Ready(N + 1))
         /\ \A k \in 1..N : Ck("state at the first frame of its scan, else at the scan's start", Trace[w.cloud[k]].t = T[k])
         /\ \A k \in 1..N : Ck("the scan itself, in order", Trace[w.cloud[k]].seq = Trace[w.scan[k]].seq /\ \A i \in DOMAIN Trace[w.cloud[k]].in : REq(Trace[w.cloud[k]].in[i], Trace[w.scan[k]].seq))
         /\ \A k \in 1..N : Ck("points moved to where they are at the state's time", Deskewed(k))
         /\ Ck("one initial odometry, once the first state has its time", Len(w.init) = IF Placed(1) THEN 1 ELSE 0)
         /\ (Len(w.init) = 1 => FirstOdo)
         /\ Ck("one array of samples per interval", IF N = 0 THEN Len(w.s2s) = 0 ELSE Len(w.s2s) = N - 1 \/ (Len(w.s2s) = N /\ Placed(N + 1)))
         /\ \A k \in DOMAIN w.s2s : LET e == Trace[w.s2s[k]] need == InOrder(Needed(I, T[k], T[k + 1])) IN
              /\ Ck("from state to state", e.a = T[k] /\ e.b = T[k + 1])
              /\ Ck("exactly the samples that stand during the interval", [i \in DOMAIN e.m |-> e.m[i].t] = [i \in DOMAIN need |-> I[need[i]]])
              /\ Ck("as measured", \A i \in DOMAIN e.m : Same(e.m[i], Trace[w.imu[need[i]]].m))
         /\ (Cfg.stereo => LET chosen == {k \in 1..Len(S) : k <= N + 1 /\ Chosen(k) /\ FrameFor(F, S[k], S[k + 1]) # 0}
                               due == IF Cfg.only THEN {T[k] : k \in chosen} ELSE {F[i] : i \in DOMAIN F}
                           IN \A tp \in {"stereo/left/image", "stereo/right/image", "stereo/left/camera_info", "stereo/right/camera_info"} :
                                LET got == {i \in DOMAIN w.image : Trace[w.image[i]].topic = tp}
                                IN Ck("frames passed on, each once, with their time", /\ {Trace[w.image[i]].t : i \in got} = due /\ Cardinality(got) = Cardinality(due)
                                       /\ \A i \in got : \E j \in DOMAIN w.frame : Trace[w.frame[j]].t = Trace[w.image[i]].t /\ Trace[w.frame[j]].id = Trace[w.image[i]].id))
       B == Times(w.baro)
       Var(b) == IF Cfg.overb THEN RReal("0.25") ELSE RReal(b.v)
       M(i) == LET b == Trace[w.baro[i]] IN [p |-> b.p, v |-> Var(b), t |-> b.t]
       Press(k) == LET o == Trace[w.press[k]] c == IF \E i \in DOMAIN B : B[i] = T[k] THEN 3 ELSE Pressure(B, T[k]).how IN
            CASE c = 3 -> LET i == CHOOSE i \in DOMAIN B : B[i] = T[k] IN RNear(o.p, Trace[w.baro[i]].p, "1e-9") /\ RNear(o.v, M(i).v, "1e-9") /\ (o.f = Trace[w.baro[i]].f \/ (i > 1 /\ o.f = Trace[w.baro[i - 1]].f))
              [] c = 1 -> REq(o.p, Trace[w.baro[1]].p) /\ RNear(o.v, M(1).v, "1e-12") /\ o.f = Trace[w.baro[1]].f
              [] c = 2 -> LET i == Pressure(B, T[k]).i IN Between(M(i), M(i + 1), o, T[k]) /\ o.f = Trace[w.baro[i]].f
              [] OTHER -> FALSE
       Pressures ==
         LET due == Served(B, SubSeq(T, 1, N)) IN
         /\ Ck("nothing without a barometer", Cfg.baro \/ w.press = <<>>)
         /\ (Cfg.baro => /\ Ck("every state that has measurements around it has its pressure", Len(w.press) >= due)
                         /\ Ck("states beyond the measurements have none", Len(w.press) <= due \/ (Len(w.press) = due + 1 /\ due < N /\ B # <<>> /\ T[due + 1] = Last(B)))
                         /\ \A k \in DOMAIN w.press : Ck("one per state, in order", Trace[w.press[k]].t = T[k]) /\ Ck("linear between the measurements around it", Press(k)))
   IN /\ (Judges("P18") => States)
      /\ (Judges("P19") => Pressures)
      /\ (Judges("P20") => Ck("every reply taken up", Len(w.tf) = Len(w.reply) /\ Len(w.pose) = Len(w.reply)))
\* ---- P26
Stopped == IsEvent("stopped") /\ Keep /\ (Judges("P26") => /\ Ck("every waiting callback returns", E.left = 0) /\ Ck("and leaves no lock behind", E.locked = 0) /\ Ck("and gives back only what it holds", E.misused = 0))
End == IsEvent("end") /\ Keep
Next == \/ Integ \/ Union \/ DelOld \/ PressureCall \/ ParamsCall \/ INode \/ IStep
        \/ Start \/ Imu \/ Scan \/ Frame \/ Baro \/ Reply \/ InitialOut \/ S2SOut \/ CloudOut \/ PressOut \/ ImageOut \/ TfOut \/ PoseOut \/ ImuDone \/ Threw
        \/ Settled \/ Stopped \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
