------------------------------ MODULE SysTrace ------------------------------
(***************************************************************************)
(* P35: recorded runs of the programs themselves, every module in place,   *)
(* on as many threads as each program took.  The vehicle keeps its speed   *)
(* and its attitude, so what each part must have made is known.            *)
(* w: lines of what was made since the scenario began, by kind.            *)
(***************************************************************************)
EXTENDS Rigid, TraceBase
VARIABLE w
vars == <<l, w>>
Kinds == {"cloud", "normals", "map", "optimised", "initial", "live", "registered", "pressure", "features", "interval", "pose"}
W0 == [cfg |-> 0, made |-> [k \in Kinds |-> <<>>], progs |-> <<>>]
Init == l = 1 /\ w = W0
Cfg == Trace[w.cfg]
Start == IsEvent("sys") /\ w' = [W0 EXCEPT !.cfg = l]
Made == IsEvent("made") /\ w' = [w EXCEPT !.made[E.kind] = Append(@, l)]
\* ---- programs and their threads
Range(s) == {s[i] : i \in DOMAIN s}
Services(name, reg) == (IF name = "frontend" THEN {} ELSE {"lookup_transform"}) \cup (IF reg /\ name \in {"node", "backend"} THEN {"publish_map", "publish_pose_graph"} ELSE {})
Named(s, n) == \E k \in 0..Len(s) : SubSeq(s, k + 1, Len(s)) = n /\ (k = 0 \/ SubSeq(s, k, k) = "/")
Served(got, want) == \A n \in want : \E s \in Range(got) : Named(s, n)
IsProgram == Ck("a program with no thread is refused, any other runs", E.exc = (E.asked < 1))
             /\ (~E.exc => /\ Ck("at least the threads asked for", E.got >= E.asked)
                           /\ Ck("its services are offered", Served(E.services, Services(E.name, w.cfg # 0 /\ E.name # "stereo" /\ Cfg.reg))))
Program == IsEvent("program") /\ IsProgram /\ UNCHANGED w
\* ---- the stereo program alone
Alone == IsEvent("sysalone") /\ UNCHANGED w
AloneDone == IsEvent("alone") /\ UNCHANGED w /\ Ck("no failure", ~E.exc) /\ Ck("features for every pair of images, in order", E.out = E.in)
\* ---- the motion
Secs(us) == RDiv(us, 1000000)
States == Cfg.states
Truth(t) == VAdd(Cfg.p0, VScale(Secs(t - States[1]), Cfg.v))
Got(k) == [i \in DOMAIN w.made[k] |-> Trace[w.made[k][i]]]
Times(k) == [i \in DOMAIN w.made[k] |-> Trace[w.made[k][i]].t]
UnitVectors == Cfg.method # "CONSTANT" /\ Cfg.point \in {"", "RANGE", "RANGE_BIAS"}
Least(a, b) == IF a < b THEN a ELSE b
Kept == Least(Cfg.keep, 60 + (IF Cfg.voxel THEN 1 ELSE 2) + (IF Cfg.rangef THEN 0 ELSE 1))
\* without the lidar nothing but the sensors' exact values bears on the result
Tol(x) == IF Cfg.reg THEN x ELSE RMul(x, "0.02")
IsState(e, k) == /\ e.t = States[k] /\ e.f = Cfg.map /\ e.cf = Cfg.body
                 /\ VNearAbs(e.p, Truth(e.t), Tol("0.008")) /\ MNearAbs(RotQ(e.q), Cfg.R, Tol("0.008")) /\ VNearAbs(e.v, Cfg.v, Tol("0.04"))
Waits == (IF Cfg.reg THEN {"mapping/local_map"} ELSE {}) \cup (IF Cfg.stereo /\ ~Cfg.only THEN {"stereo/features"} ELSE {})
MayQueue == (IF Cfg.reg /\ ~Cfg.refine THEN {"mapping/local_map"} ELSE {}) \cup (IF Cfg.stereo /\ ~Cfg.only THEN {"stereo/features"} ELSE {})
\* ---- nothing moves any more
Settled == IsEvent("settled") /\ UNCHANGED w /\
   LET N == Len(States)
       Of(k) == Got(k)
       AllStates(k) == Times(k) = States
       cl == Of("cloud")  no == Of("normals")  op == Of("optimised")  rg == Of("registered")  po == Of("pose")  iv == Of("interval")  mp == Of("map") li == Of("live")
   IN /\ Ck("no callback fails", ~E.exc)
      /\ Ck("no callback is left waiting but for what has not been sent", Range(E.waits) \subseteq Waits)
      /\ Ck("no message is left unserved", Range(E.queued) \subseteq MayQueue)
      /\ Ck("one initial state", Times("initial") = <<States[1]>> /\ IsState(Of("initial")[1], 1))
      /\ Ck("a cloud per state, in order", AllStates("cloud") /\ \A i \in DOMAIN cl : cl[i].f = Cfg.lid)
      /\ Ck("an interval from each state to the next", [i \in DOMAIN iv |-> <<iv[i].a, iv[i].b>>] = [i \in 1..(N - 1) |-> <<States[i], States[i + 1]>>])
      /\ Ck("every state optimised once, in order", AllStates("optimised"))
      /\ Ck("on the vehicle's path", \A k \in 1..N : IsState(op[k], k))
      /\ Ck("a pose per state", AllStates("pose") /\ \A k \in DOMAIN po : po[k].f = Cfg.map
               /\ LET T == TMul(MkT(Cfg.R, Truth(po[k].t)), Cfg.BK) IN VNearAbs(po[k].p, Trn(T), Tol("0.015")) /\ MNearAbs(RotQ(po[k].q), Rot(T), Tol("0.008")))
      /\ Ck("odometry goes on from the latest state", \A k \in DOMAIN li : li[k].f = Cfg.map /\ li[k].cf = Cfg.body /\ VNearAbs(li[k].p, Truth(li[k].t), Tol("0.015")) /\ VNearAbs(li[k].v, Cfg.v, Tol("0.04")))
      /\ (IF Cfg.reg
          THEN /\ Ck("a filtered cloud with normals per state", AllStates("normals") /\ \A i \in DOMAIN no : no[i].n = Kept /\ no[i].normals /\ no[i].f = Cfg.lid)
               /\ Ck("with beam directions when the covariance needs them", \A i \in DOMAIN no : no[i].beams = UnitVectors)
               /\ Ck("a map per state", AllStates("map") /\ \A i \in DOMAIN mp : mp[i].n >= 1)
               /\ Ck("each state registered with the one before", Times("registered") = Tail(States))
               /\ Ck("by the motion between them", \A k \in DOMAIN rg : rg[k].f = Cfg.body /\ MNearAbs(RotQ(rg[k].q), Eye(3), "0.008")
                        /\ VNearAbs(rg[k].p, MVec(Tr(Cfg.R), VScale(Secs(States[k + 1] - States[k]), Cfg.v)), "0.03"))
          ELSE Ck("nothing from the lidar", no = <<>> /\ mp = <<>> /\ rg = <<>>))
      /\ Ck("a pressure per state", Times("pressure") = IF Cfg.baro THEN States ELSE <<>>)
      /\ Ck("features for the frames", IF ~Cfg.stereo THEN Times("features") = <<>> ELSE Times("features") = IF Cfg.only THEN States ELSE Cfg.frames)
Stopped == IsEvent("stopped") /\ UNCHANGED w /\ Ck("every callback returns at shutdown, and no lock is kept", E.left = 0 /\ E.locked = 0 /\ E.misused = 0)
Threw == IsEvent("threw") /\ UNCHANGED w /\ Ck("no failure", FALSE)
End == IsEvent("end") /\ UNCHANGED w
Next == Start \/ Made \/ Program \/ Alone \/ AloneDone \/ Settled \/ Stopped \/ Threw \/ End
=============================================================================
