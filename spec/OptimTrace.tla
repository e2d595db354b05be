------------------------------ MODULE OptimTrace -----------------------------
(***************************************************************************)
(* P25 and part of P26: recorded runs of the real back end.  Each call to  *)
(* the optimiser is judged when it is made: it is for the next state, and  *)
(* hands over exactly the factors that state owes - each with the          *)
(* measurement and the noise of the message for that state.  What is       *)
(* published is judged against the estimate that came back.  s remembers   *)
(* the lines of the trace where messages were sent and came out.           *)
(***************************************************************************)
EXTENDS Optim, Rigid, TraceBase
VARIABLE s
vars == <<l, s>>
S0 == [cfg |-> 0, init |-> 0, imu |-> <<>>, reg |-> <<>>, fr |-> <<>>, bar |-> <<>>, isam |-> <<>>, guess |-> <<>>, odo |-> 0, bias |-> 0, path |-> 0, chg |-> 0, pts |-> 0,
       bin |-> 0, bdone |-> 0, used |-> 0, rem |-> 0]
Init == l = 1 /\ s = S0
Keep == UNCHANGED s
Cfg == Trace[s.cfg]
Judges == Cfg.grp # "P26"
On == {Cfg.on[i] : i \in DOMAIN Cfg.on} \ {""}
Log(f) == s' = [s EXCEPT ![f] = Append(@, l)]
Count(f) == s' = [s EXCEPT ![f] = @ + 1]
Sec(us) == RMul(us, "1e-6")
Sq(x) == RMul(x, x)
RECURSIVE Fold(_, _, _)
\* ---- messages
Start == IsEvent("optim") /\ s' = [S0 EXCEPT !.cfg = l]
Refused == IsEvent("optcfg") /\ Keep /\ Ck("refused exactly when it makes no sense", E.exc = (E.bad # ""))
First == IsEvent("init") /\ s' = [s EXCEPT !.init = l]
Imu == IsEvent("imu") /\ Log("imu")
Reg == IsEvent("reg") /\ IF E.bad THEN Keep ELSE Log("reg")
Frame == IsEvent("frame") /\ IF E.bad THEN Keep ELSE Log("fr")
Bar == IsEvent("bar") /\ IF E.bad THEN Keep ELSE Log("bar")
BarIn == IsEvent("barin") /\ Count("bin")
BarDone == IsEvent("bardone") /\ Count("bdone")
\* ---- what is known at state k
InitM == Trace[s.init]
ImuM(k) == Trace[s.imu[k]]
RegM(k) == Trace[s.reg[k]]
TimeOf(k) == IF k = 0 THEN InitM.t ELSE ImuM(k).b
Val(vs, key) == LET h == SelectSeq(vs, LAMBDA x : x[1] = key) IN IF Len(h) = 1 THEN h[1][2] ELSE <<>>
Keys(vs) == {vs[i][1] : i \in DOMAIN vs}
PoseV(v) == << <<v[1], v[2], v[3], v[4]>>, <<v[5], v[6], v[7], v[8]>>, <<v[9], v[10], v[11], v[12]>> >>
FlatT(T) == T[1] \o T[2] \o T[3]
\* the estimate after state k was optimised
Est(k) == Trace[s.isam[k + 1]].est
PoseOf(k, j) == PoseV(Val(Est(k), <<"X", j>>))
BiasOf(k, j) == Val(Est(k), <<"B", j>>)
VelOf(k) == IF "imu" \in On THEN Val(Est(k), <<"V", k>>)
            ELSE IF k = 0 THEN InitM.v
            ELSE VScale(RDiv(1, Sec(TimeOf(k) - TimeOf(k - 1))), VSub(Trn(PoseOf(k, k)), Trn(PoseOf(k, k - 1))))
MotionM(m) == MkT(RotQ(m.q), m.p)
\* ---- motion measured by the IMU over the interval of state k, seen from state k - 1
Spans(k) == LET m == ImuM(k).m a == ImuM(k).a b == ImuM(k).b
            IN [i \in DOMAIN m |-> LET f == IF m[i].t > a THEN m[i].t ELSE a
                                       t == IF i < Len(m) /\ m[i + 1].t < b THEN m[i + 1].t ELSE b IN IF t > f THEN t - f ELSE 0]
\* one more sample held for us microseconds; the rotation is kept as a rotation vector, as the library does
JrInv(th, w) == LET n2 == RDot(th, th) IN
   IF RLeq(n2, "1e-16") THEN VAdd(w, VScale("0.5", Cross(th, w)))
   ELSE LET n == RSqrt(n2) c == RSub(RDiv(1, n2), RDiv(RAdd(1, RCos(n)), RMul(RMul(2, n), RSin(n))))
        IN VAdd(w, VAdd(VScale("0.5", Cross(th, w)), VScale(c, Cross(th, Cross(th, w)))))
Step(x, us, a, w, bias) ==
   LET RI == Rot(Cfg.BI) arm == Trn(Cfg.BI) d == Sec(us)
       wb == TLCEval(MVec(RI, VSub(w, <<bias[4], bias[5], bias[6]>>)))
       ab == TLCEval(VSub(MVec(RI, VSub(a, <<bias[1], bias[2], bias[3]>>)), Cross(wb, Cross(wb, arm))))
       aw == TLCEval(MVec(RotOf(x.th), ab))
   IN TLCEval([th |-> VAdd(x.th, VScale(d, JrInv(x.th, wb))), p |-> VAdd(x.p, VAdd(VScale(d, x.v), VScale(RMul("0.5", Sq(d)), aw))), v |-> VAdd(x.v, VScale(d, aw))])
Fold(x, k, i) == IF i > Len(ImuM(k).m) THEN [R |-> RotOf(x.th), p |-> x.p, v |-> x.v]
                 ELSE Fold(IF Spans(k)[i] = 0 THEN x ELSE Step(x, Spans(k)[i], ImuM(k).m[i].a, ImuM(k).m[i].w, BiasOf(k - 1, k - 1)), k, i + 1)
Delta(k) == TLCEval(Fold([th |-> <<0, 0, 0>>, p |-> <<0, 0, 0>>, v |-> <<0, 0, 0>>], k, 1))
Predict(k) == LET d == Delta(k)
                  X == PoseOf(k - 1, k - 1) V == VelOf(k - 1)
                  T == Sec(ImuM(k).b - ImuM(k).a)
                  G == <<0, 0, RNeg(Cfg.g)>>
              IN [X |-> MkT(MMul(Rot(X), d.R), VAdd(VAdd(Trn(X), VAdd(VScale(T, V), VScale(RMul("0.5", Sq(T)), G))), MVec(Rot(X), d.p))),
                  V |-> VAdd(VAdd(V, VScale(T, G)), MVec(Rot(X), d.v))]
NearT(A, B, tol) == MNearAbs(A, B, RMul(tol, RAdd(1, VMaxAbs(Trn(B)))))
Tol == "1e-8"
Guess == IsEvent("guess") /\ Log("guess") /\ (Judges =>
   LET k == Len(s.guess) T == MkT(RotQ(E.q), E.p) IN
   IF k = 0 THEN Ck("first the initial state", s.init # 0 /\ E.t = InitM.t /\ NearT(T, IdT, "1e-12"))
   ELSE LET w == TLCEval(Predict(k)) IN
        /\ Ck("one motion guess per interval, once the state before is optimised", k <= Len(s.imu) /\ k <= Len(s.isam))
        /\ Ck("stamped with its state's time", E.t = TimeOf(k))
        /\ Ck("from the previous to this lidar frame", E.f = Cfg.lid \o "_i-1" /\ E.cf = Cfg.lid)
        /\ Ck("the IMU's motion of the lidar", MNearAbs(T, ChangeFrame(TMul(TInv(PoseOf(k - 1, k - 1)), w.X), TInv(Cfg.BL)), Tol)))

\* ---- what the optimiser is given for state k
Fs(f, kind) == SelectSeq(f, LAMBDA x : x.k = kind)
Diag(d) == Mat(Len(d), Len(d), LAMBDA i, j : IF i = j THEN d[i] ELSE 0)
Iso(n, v) == Mat(n, n, LAMBDA i, j : IF i = j THEN v ELSE 0)
RowsOf(c) == Mat(6, 6, LAMBDA i, j : c[6 * (i - 1) + j])
NearC(A, B) == MNearRel(A, B, "1e-7")
One(msg, f, kind, want, Good(_)) == LET h == Fs(f, kind) IN Ck(msg, Len(h) = (IF want THEN 1 ELSE 0)) /\ (want => Good(h[1]))
Priors(f, k) ==
   /\ One("prior of the first pose", f, "priorX", k = 0, LAMBDA x : Ck("the initial pose and its covariance", x.keys = << <<"X", 0>> >> /\ MNearAbs(x.mv, MotionM(InitM), "1e-9") /\ NearC(x.nv, ReorderCov(RowsOf(InitM.C), 3))))
   /\ One("prior of the first velocity", f, "priorV", k = 0 /\ "imu" \in On, LAMBDA x : Ck("the initial velocity and its covariance", x.keys = << <<"V", 0>> >> /\ VNear(x.mv, InitM.v, "1e-12") /\ NearC(x.nv, InitM.Cv)))
   /\ One("prior of the first biases", f, "priorB", k = 0 /\ "imu" \in On, LAMBDA x : Ck("no bias, with the configured noise", x.keys = << <<"B", 0>> >> /\ VNearAbs(x.mv, <<0, 0, 0, 0, 0, 0>>, "1e-15")
                            /\ NearC(x.nv, Diag([i \in 1..6 |-> Sq(IF i <= 3 THEN Cfg.pa ELSE Cfg.pg)]))))
ImuFactor(f, k) == One("one IMU factor per interval", f, "imu", k > 0 /\ "imu" \in On, LAMBDA x :
   /\ Ck("between the states of the interval", x.keys = << <<"X", k - 1>>, <<"V", k - 1>>, <<"X", k>>, <<"V", k>>, <<"B", k - 1>>, <<"B", k>> >>)
   /\ Ck("as long as the interval", RNear(x.mv[1], Sec(ImuM(k).b - ImuM(k).a), "1e-9"))
   /\ LET d == Delta(k) IN Ck("the motion its samples add up to", MNearAbs(x.dR, d.R, Tol) /\ VNearAbs(x.dp, d.p, Tol) /\ VNearAbs(x.dv, d.v, Tol))
   /\ Ck("with the bias estimated for its start", VNearAbs(x.bias, BiasOf(k - 1, k - 1), "1e-12"))
   /\ Ck("noise of its samples and of the configuration", NearC(x.acc, Iso(3, ImuM(k).ca)) /\ NearC(x.gyr, Iso(3, ImuM(k).cg)) /\ NearC(x.itg, Iso(3, Sq(Cfg.itg)))
                                                          /\ NearC(x.ba, Iso(3, Sq(Cfg.ba))) /\ NearC(x.bg, Iso(3, Sq(Cfg.bg))) /\ NearC(x.bi, Iso(6, Sq(Cfg.bi))))
   /\ Ck("gravity and where the sensor is", VNear(x.g, <<0, 0, RNeg(Cfg.g)>>, "1e-12") /\ MNearAbs(x.BI, Cfg.BI, "1e-12")))
Between(f, k) == One("one registration factor per registration", f, "between", k > 0 /\ "reg" \in On, LAMBDA x :
   /\ Ck("from the previous to this state", x.keys = << <<"X", k - 1>>, <<"X", k>> >>)
   /\ Ck("the registration of this state, with its covariance", k <= Len(s.reg) /\ MNearAbs(x.mv, MotionM(RegM(k)), "1e-9") /\ NearC(x.nv, ReorderCov(RowsOf(RegM(k).C), 3))))
\* stereo: frames are in the order of their states
FrM(i) == Trace[s.fr[i]]
FrameIndex(k) == LET D == {i \in DOMAIN s.fr : FrM(i).k = k} IN IF D = {} THEN 0 ELSE CHOOSE i \in D : TRUE
Ids(i) == IF i < 1 THEN {} ELSE LET f == FrM(i).f IN {f[n].id : n \in DOMAIN f}
Obs(i, id) == LET f == FrM(i).f z == f[CHOOSE n \in DOMAIN f : f[n].id = id].z IN << z[1], z[3], RMul("0.5", RAdd(z[2], z[4])) >>
Seen(i) == Ids(i) \intersect Ids(i - 1)
New(i) == Seen(i) \ Ids(i - 2)
KOf == << Cfg.K[1], Cfg.K[2], Cfg.K[3], Cfg.K[4], Cfg.K[5], Cfg.K[6] >>
\* where a point in front of the camera is seen
Project(c) == LET u == RAdd(RMul(Cfg.K[1], RDiv(c[1], c[3])), Cfg.K[4]) IN << u, RSub(u, RDiv(RMul(Cfg.K[1], Cfg.K[6]), c[3])), RAdd(RMul(Cfg.K[2], RDiv(c[2], c[3])), Cfg.K[5]) >>
Back(z) == LET d == RDiv(RMul(Cfg.K[1], Cfg.K[6]), RSub(z[1], z[2])) IN << RMul(RDiv(RSub(z[1], Cfg.K[4]), Cfg.K[1]), d), RMul(RDiv(RSub(z[3], Cfg.K[5]), Cfg.K[2]), d), d >>
Probe == TApply(TInv(Cfg.BS), <<"8", "0.3", "-0.2">>)
\* weight of a residual d under a loss function with parameter k
RECURSIVE ExpTo(_, _, _)
ExpTo(x, n, i) == IF i > n THEN 1 ELSE RAdd(1, RMul(RDiv(x, i), ExpTo(x, n, i + 1)))
Weight(t, k, d) == CASE t = "cauchy" -> RDiv(Sq(k), RAdd(Sq(k), Sq(d)))
                     [] t = "dcs" -> IF RLeq(Sq(d), k) THEN 1 ELSE Sq(RDiv(RMul(2, k), RAdd(k, Sq(d))))
                     [] t = "fair" -> RDiv(1, RAdd(1, RDiv(d, k)))
                     [] t = "geman_mcclure" -> RDiv(Sq(Sq(k)), Sq(RAdd(Sq(k), Sq(d))))
                     [] t = "huber" -> IF RLeq(d, k) THEN 1 ELSE RDiv(k, d)
                     [] t = "l2_with_dead_zone" -> IF RLeq(d, k) THEN 0 ELSE RDiv(RSub(d, k), d)
                     [] t = "tukey" -> IF RLeq(d, k) THEN Sq(RSub(1, Sq(RDiv(d, k)))) ELSE 0
                     [] t = "welsch" -> ExpTo(RNeg(Sq(RDiv(d, k))), 30, 1)
                     [] OTHER -> 1
LossOk(x) == x.rob = Cfg.robust /\ (x.rob => /\ VNearAbs(x.rw, [i \in 1..3 |-> Weight(Cfg.rt, Cfg.rk, <<"0.05", "0.7", "2">>[i])], "1e-9") /\ x.rs = Cfg.rs)
StereoOk(x) == LET i == FrameIndex(x.keys[1][2]) z == Obs(i, x.keys[2][2]) IN
   /\ VNear(x.mv, z, "1e-12")
   /\ NearC(x.nv, Diag(<< Sq(Cfg.sl), Sq(Cfg.sr), Sq(Cfg.sy) >>)) /\ LossOk(x)
   /\ VNear(x.K, KOf, "1e-9") /\ (RLeq(Probe[3], "0.5") \/ VNearAbs(x.err, VSub(Project(Probe), z), "1e-5"))
Stereo(f, k) == LET h == Fs(f, "stereo") i == IF "stereo" \in On THEN FrameIndex(k) ELSE 0
                    want == IF i <= 1 THEN {} ELSE {<< <<"X", k>>, <<"S", id>> >> : id \in Seen(i)} \union {<< <<"X", FrM(i - 1).k>>, <<"S", id>> >> : id \in New(i)}
                IN /\ Ck("every observation of a tracked feature once, at its own state", {h[n].keys : n \in DOMAIN h} = want /\ Len(h) = Cardinality(want))
                   /\ \A n \in DOMAIN h : Ck("that observation, with the calibration and noise", StereoOk(h[n]))
\* barometer: values are taken up in order
BarM(i) == Trace[s.bar[i]]
BarState(i) == IF i = 0 THEN -1 ELSE BarM(i).k
Barometer(f) == LET h == Fs(f, "baro") b == Fs(f, "bbias") n == s.used + Len(h) IN
   /\ Ck("nothing without a barometer", "baro" \in On \/ (h = <<>> /\ b = <<>>))
   /\ Ck("every barometer value that is ready, once", s.bdone <= n /\ n <= s.bin /\ n <= Len(s.bar))
   /\ \A i \in DOMAIN h : LET m == BarM(s.used + i) IN Ck("at its own state", h[i].keys = << <<"X", m.k>>, <<"P", m.k>> >>) /\ Ck("the height that value stands for, with its variance", RNear(h[i].mv[1], m.h, "1e-9") /\ NearC(h[i].nv, << <<m.v>> >>))
   /\ One("one prior of the barometer bias, with the first value", f, "priorP", s.used = 0 /\ n > 0, LAMBDA x : Ck("the height that value stands for", x.keys = << <<"P", BarState(1)>> >> /\ RNear(x.mv[1], BarM(1).h, "1e-9") /\ NearC(x.nv, << << Sq(Cfg.pb) >> >>)))
   /\ LET want == UNION {Links(BarState(i - 1), BarState(i)) : i \in (s.used + 1)..n}
      IN Ck("a chain of biases up to the last value", {b[i].keys : i \in DOMAIN b} = {<< <<"P", j - 1>>, <<"P", j>> >> : j \in want} /\ Len(b) = Cardinality(want))
   /\ \A i \in DOMAIN b : Ck("constant up to the configured noise", REq(b[i].mv[1], 0) /\ NearC(b[i].nv, << << Sq(Cfg.bb) >> >>))
Known == {"priorX", "priorV", "priorB", "priorP", "imu", "between", "stereo", "baro", "bbias"}
Values(f, v, k) ==
   LET n == s.used + Len(Fs(f, "baro"))
       bars == IF n = s.used THEN {} ELSE (IF s.used = 0 THEN 0 ELSE BarState(s.used) + 1)..BarState(n)
       i == IF "stereo" \in On THEN FrameIndex(k) ELSE 0
       lms == IF i <= 1 THEN {} ELSE New(i)
       w == IF k = 0 THEN [X |-> MotionM(InitM), V |-> InitM.v] ELSE TLCEval(Predict(k))
       X == IF k > 0 /\ "reg" \in On THEN TMul(PoseOf(k - 1, k - 1), MotionM(RegM(k))) ELSE w.X
       x == PoseV(Val(v, <<"X", k>>))
   IN /\ Ck("the variables of this state, each once", Keys(v) = {<<"X", k>>, <<"V", k>>, <<"B", k>>} \union {<<"P", j>> : j \in bars} \union {<<"S", id>> : id \in lms} /\ Len(v) = Cardinality(Keys(v)))
      /\ Ck("starting from the registered, else the predicted, pose", NearT(x, X, IF k > 0 /\ "reg" \notin On THEN Tol ELSE "1e-8"))
      /\ Ck("starting from the predicted velocity", VNearAbs(Val(v, <<"V", k>>), w.V, Tol))
      /\ Ck("starting from the last bias", VNearAbs(Val(v, <<"B", k>>), IF k = 0 THEN <<0, 0, 0, 0, 0, 0>> ELSE BiasOf(k - 1, k - 1), "1e-12"))
      /\ \A id \in lms : LET c == Back(Obs(i, id)) p == Val(v, <<"S", id>>) at(Y) == VNearAbs(p, TApply(TMul(Y, Cfg.BS), c), RMul("1e-4", RAdd(1, VMaxAbs(p)))) IN
           Ck("landmark where it was seen", at(X) \/ at(w.X))
Isam == IsEvent("isam") /\ s' = [s EXCEPT !.isam = Append(@, l), !.used = @ + Len(Fs(E.u.f, "baro"))] /\ (Judges =>
   LET k == Len(s.isam) f == E.u.f IN
   /\ Ck("the next state, and all it needs is there", s.init # 0 /\ k <= Reached(On, TRUE, Len(s.imu), Len(s.reg), {FrM(i).k : i \in DOMAIN s.fr}))
   /\ Ck("known factors only", \A i \in DOMAIN f : f[i].k \in Known)
   /\ Priors(f, k) /\ ImuFactor(f, k) /\ Between(f, k) /\ Stereo(f, k) /\ Barometer(f) /\ Values(f, E.u.v, k))
\* ---- what is published after it
K == Len(s.isam) - 1
At(e, k, T) == NearT(MkT(RotQ(e.q), e.p), T, "1e-8")
Odo == IsEvent("odo") /\ s' = [s EXCEPT !.odo = @ + 1, !.rem = @ + 1] /\ (Judges =>
   /\ Ck("one odometry per optimised state, right after it", s.odo = K)
   /\ Ck("its time and frames", E.t = TimeOf(K) /\ E.f = Cfg.map /\ E.cf = Cfg.body)
   /\ Ck("the estimated pose", At(E, K, PoseOf(K, K)))
   /\ Ck("the estimated velocity", VNearAbs(E.v, VelOf(K), RMul("1e-8", RAdd(1, RMul("1e-3", VMaxAbs(Trn(PoseOf(K, K))))))))
   /\ ("stereo" \in On \/ Trace[s.isam[K + 1]].cov = <<>> \/ Ck("the estimated covariance", MNearRel(ReorderCov(RowsOf(E.C), 3), Trace[s.isam[K + 1]].cov, "1e-7")))
   /\ LET gone == UNION {{E.rem[i][j] : j \in DOMAIN E.rem[i]} : i \in DOMAIN E.rem}
          states == {k[2] : k \in {x \in gone : x[1] = "X"}}
      IN Ck("states leave the optimiser when they leave the window", states = IF Cfg.win >= 0 /\ K - Cfg.win >= 0 THEN {K - Cfg.win} ELSE {}))
Bias == IsEvent("bias") /\ Count("bias") /\ (Judges => /\ Ck("one per optimised state", s.bias = K) /\ Ck("its time", E.t = TimeOf(K)) /\ Ck("the estimated biases", VNearAbs(E.b, BiasOf(K, K), "1e-9")))
PathOk(m) == /\ Ck("its time and frame", m.t = TimeOf(K) /\ m.f = Cfg.map)
             /\ Ck("every state so far", Len(m.p) = K + 1)
             /\ \A j \in 0..K : Ck("at its time, where it is now estimated", m.p[j + 1].t = TimeOf(j) /\ At(m.p[j + 1], j, PoseOf(K, j)))
Path == IsEvent("path") /\ Count(IF E.all THEN "path" ELSE "chg") /\ (Judges => Ck("one per optimised state", (IF E.all THEN s.path ELSE s.chg) = K) /\ PathOk(E.m))
Points == IsEvent("points") /\ Count("pts") /\ (Judges => /\ Ck("one per optimised state, when asked for", Cfg.points /\ s.pts = K)
   /\ LET e == SelectSeq(Est(K), LAMBDA x : x[1][1] = "S") IN Ck("every landmark where it is now estimated", Len(E.p) = Len(e) /\ \A i \in DOMAIN e : \E j \in DOMAIN E.p : VNear(E.p[j], e[i][2], "1e-6")))
Settled == IsEvent("settled") /\ Keep /\ (Judges =>
   /\ Ck("no failure of its own", E.exc => (E.bad \/ E.lib))
   /\ Ck("an ordinary history can be optimised", Cfg.grp # "P25K" \/ ~E.lib)
   /\ ((~E.exc /\ ~E.bad) =>
       LET R == Reached(On, s.init # 0, Len(s.imu), E.reg, {FrM(i).k : i \in DOMAIN s.fr})
           ready == Cardinality({i \in DOMAIN s.bar : s.init # 0 /\ BarM(i).k <= Predicted(On, TRUE, Len(s.imu), E.reg, {FrM(j).k : j \in DOMAIN s.fr})})
       IN /\ Ck("every state for which everything arrived is optimised", Len(s.isam) = R + 1)
          /\ Ck("and published", s.odo = R + 1 /\ s.bias = R + 1 /\ s.path = R + 1 /\ s.chg = R + 1 /\ (Cfg.points => s.pts = R + 1))
          /\ Ck("a guess for every state that can be predicted", Len(s.guess) = Predicted(On, s.init # 0, Len(s.imu), E.reg, {FrM(i).k : i \in DOMAIN s.fr}) + 1)
          /\ Ck("every barometer value whose state exists is taken up", s.bdone = ready)))
\* ---- P26
Stopped == IsEvent("stopped") /\ Keep /\ (Cfg.grp = "P26" => /\ Ck("every waiting callback returns", E.left = 0) /\ Ck("and leaves no lock behind", E.locked = 0) /\ Ck("and gives back only what it holds", E.misused = 0))
End == IsEvent("end") /\ Keep
Next == Start \/ Refused \/ First \/ Imu \/ Reg \/ Frame \/ Bar \/ BarIn \/ BarDone \/ Guess \/ Isam \/ Odo \/ Bias \/ Path \/ Points \/ Settled \/ Stopped \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
