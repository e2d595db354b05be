----------------------------- MODULE ToolsTrace -----------------------------
(***************************************************************************)
(* P36: the analysis nodes and the file converter.                         *)
(***************************************************************************)
EXTENDS Rigid, TraceBase
VARIABLES tp, fl, advertised, known
vars == <<l, tp, fl, advertised, known>>
F == INSTANCE Files WITH Topics <- {}, Paths <- {}, Clouds <- 0, Gen <- FALSE, MaxOps <- 0, topic <- <<>>, file <- <<>>, n <- 0, was <- <<>>, hist <- <<>>, wrote <- FALSE
Init == l = 1 /\ tp = <<>> /\ fl = <<>> /\ advertised = <<>> /\ known = <<>>
Keep == UNCHANGED <<tp, fl, advertised, known>>
One(P(_)) == Len(E.out) = 1 /\ P(E.out[1])
SameRot(q, R, tol) == MNearAbs(RotQ(q), R, tol)

\* ---- the orientation of an IMU as frames
Imu == IsEvent("imu") /\ Keep /\ Ck("keeps running", ~E.died)
   /\ Ck("one frame per message, or two", Len(E.out) = IF E.apply THEN 2 ELSE 1)
   /\ Ck("sent as frames in the fixed frame at the time of the message", \A i \in DOMAIN E.out : E.out[i].on = "tf" /\ E.out[i].stamp = E.stamp /\ E.out[i].from = E.fixed)
   /\ Ck("the frame of the message, turned as the message says", E.out[1].to = E.frame /\ E.out[1].q = E.q /\ \A i \in 1..3 : REq(E.out[1].t[i], 0))
   /\ (E.apply => /\ Ck("name of the second frame", E.out[2].to = E.moved)
                  /\ Ck("configured translation", E.out[2].t = E.t)
                  /\ Ck("configured rotation, after that of the IMU", SameRot(E.out[2].q, MMul(RotQ(E.q), E.R), "1e-9")))

\* ---- distances from each point of one cloud to the other
Distances == IsEvent("distances") /\ Keep /\
   IF ~E.pair THEN Ck("no pair of clouds: nothing published", E.out = <<>> /\ ~E.died)
   ELSE IF ~E.joined THEN Ck("frames that are not joined: nothing published", E.out = <<>>)
   ELSE /\ Ck("one cloud", ~E.died /\ Len(E.out) = 1 /\ E.out[1].on = "output")
        /\ LET o == E.out[1]  c == o.c
               M == TMul(TInv(E.A), E.B)
               X == TLCEval([j \in DOMAIN E.t |-> TApply(M, E.t[j])])
               d2(i, j) == Norm2(VSub(E.s[i], X[j]))
               n2(i) == LET G[k \in 1..Len(X)] == IF k = 1 THEN d2(i, 1) ELSE RMin(G[k-1], d2(i, k)) IN G[Len(X)]
           IN /\ Ck("stamp and frame of the source", c.stamp = E.stamp /\ c.frame = E.frame)
              /\ Ck("fields", [k \in DOMAIN c.f |-> << c.f[k][1], c.f[k][3], c.f[k][4] >>] = << <<"x", 7, 1>>, <<"y", 7, 1>>, <<"z", 7, 1>>, <<"distance", 7, 1>> >>)
              /\ Ck("layout", c.w = Len(E.s) /\ c.h = 1 /\ c.rs = c.w * c.ps /\ c.nd = c.rs /\ ~c.be)
              /\ Ck("the points of the source, in order", Len(o.x) = Len(E.s) /\ \A i \in DOMAIN E.s : << o.x[i], o.y[i], o.z[i] >> = E.s[i])
              /\ Ck("distance to the nearest point of the target", \A i \in DOMAIN E.s : RLeq(RAbs(RSub(o.d[i], RSqrt(n2(i)))), "5e-4"))

\* ---- statistics of each field
RMinS(s) == LET G[k \in 1..Len(s)] == IF k = 1 THEN RReal(s[1]) ELSE RMin(G[k-1], s[k]) IN G[Len(s)]
RMaxS(s) == LET G[k \in 1..Len(s)] == IF k = 1 THEN RReal(s[1]) ELSE RMax(G[k-1], s[k]) IN G[Len(s)]
Good(v, s) ==
   LET m == RDiv(RSum(s), Len(s))
       a == RSum([i \in DOMAIN s |-> RAbs(s[i])])
       q == RMaxS([i \in DOMAIN s |-> RMul(s[i], s[i])])
       var == RDiv(RSum([i \in DOMAIN s |-> RMul(RSub(s[i], m), RSub(s[i], m))]), Len(s))
   IN /\ Ck("smallest and largest value", REq(v[1], RMinS(s)) /\ REq(v[2], RMaxS(s)))
      /\ Ck("mean", RLeq(RAbs(RSub(v[3], m)), RMul("1e-12", RAdd("1e-30", a))))
      /\ Ck("variance", RLeq(RAbs(RSub(v[4], var)), RMul("1e-12", RAdd("1e-30", q))))
      /\ Ck("number of points", REq(v[5], Len(s)))
Analysed == IsEvent("analysed") /\ Keep /\ Ck("keeps running", ~E.died)
   /\ Ck("one message", Len(E.out) = 1 /\ E.out[1].on = "output_statistics")
   /\ Ck("stamp and frame of the cloud", E.out[1].stamp = E.stamp /\ E.out[1].frame = E.frame)
   /\ Ck("one entry per field, in order", [k \in DOMAIN E.out[1].s |-> E.out[1].s[k].label] = [k \in DOMAIN E.fields |-> E.fields[k].n])
   /\ \A k \in DOMAIN E.fields : Good(E.out[1].s[k].v, E.fields[k].v)

\* ---- files: tp and fl hold the number of a cloud in known
Ts == {"t1", "t2", "t3"}
Start == IsEvent("files") /\ tp' = [t \in Ts |-> 0] /\ fl' = [p \in 0..3 |-> 0] /\ advertised' = [t \in Ts |-> FALSE] /\ known' = <<>>
Arrive == IsEvent("arrive") /\ known' = Append(known, E.c) /\ tp' = [tp EXCEPT ![E.t] = Len(known) + 1] /\ UNCHANGED <<fl, advertised>>
Save == IsEvent("save") /\ Ck("nothing published", E.out = <<>>)
   /\ Ck("saved when there is a cloud and the file type is known", E.ok = F!CanSave(tp, E.t, E.p))
   /\ fl' = F!AfterSave(tp, fl, E.t, E.p) /\ UNCHANGED <<tp, advertised, known>>
Load == IsEvent("load") /\ Ck("loaded when there is a file", E.ok = F!CanLoad(fl, E.p))
   /\ (E.ok => /\ Ck("published once on the topic", Len(E.out) = 1 /\ E.out[1].on = E.t)
               /\ Ck("what was saved", E.out[1].c = known[fl[E.p]])
               /\ Ck("frame as asked", E.out[1].frame = E.frame)
               /\ Ck("stamped with the time", RLeq(RSub(E.from, 2), E.out[1].stamp) /\ RLeq(E.out[1].stamp, RAdd(E.to, 2)))
               /\ Ck("one publisher per topic", E.advertised = 1)
               /\ Ck("kept for late subscribers as asked", advertised[E.t] \/ E.latched = E.latch))
   /\ (~E.ok => Ck("nothing published", E.out = <<>>))
   /\ tp' = F!AfterLoad(tp, fl, E.t, E.p)
   /\ advertised' = [advertised EXCEPT ![E.t] = TRUE] /\ UNCHANGED <<fl, known>>
End == IsEvent("end") /\ Keep
Next == \/ Imu \/ Distances \/ Analysed \/ Start \/ Arrive \/ Save \/ Load \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
