---------------------------- MODULE MappingTrace ----------------------------
(***************************************************************************)
(* P15, P16: recorded updates of the real mapper.  keys: the keyframes,    *)
(* with the line of their scan and the line and place of their pose.       *)
(* c: the line of the configuration.                                       *)
(***************************************************************************)
EXTENDS Mapping, Rigid, TraceBase
VARIABLES keys, c
vars == <<l, keys, c>>
Init == l = 1 /\ keys = <<>> /\ c = 0
Cfg == Trace[c]
Judges(p) == Cfg.grp = p
Lidar(T) == TMul(T, Cfg.BL)
At(r) == Lidar(Trace[r[1]].path[r[2]].T)            \* pose of the lidar, by reference
Angle(A, B) == LET R == MMul(Tr(Rot(A)), Rot(B)) v == << RSub(R[3][2], R[2][3]), RSub(R[1][3], R[3][1]), RSub(R[2][1], R[1][2]) >>
               IN RAtan2(Norm(v), RSub(RAdd(R[1][1], RAdd(R[2][2], R[3][3])), 1))
Dist(A, B) == Norm(VSub(Trn(A), Trn(B)))
Unclear(x, th) == ~Cfg.grid /\ RLeq(RAbs(RSub(x, th)), "1e-7")
\* ---- clouds: a point is [position, tag, normal]
Row(m, i) == << m[1][i], m[2][i], m[3][i] >>
Scaled(v) == RMul("3e-6", RAdd(1, v))
IsMoved(o, i, e, j, T) == /\ VNearAbs(Row(o.p, i), TApply(T, Row(e.p, j)), Scaled(RAdd(VMaxAbs(Row(e.p, j)), VMaxAbs(Trn(T)))))
                          /\ VNearAbs(Row(o.n, i), MVec(Rot(T), Row(e.n, j)), "2e-6")
\* o is exactly the scans of the keyframes S, each in its own order, moved by To(k)
Owner(o, i) == {k \in DOMAIN keys : Trace[keys[k].scan].tag = o.tag[i]}
IsUnion(o, S, To(_)) ==
   /\ \A i \in DOMAIN o.tag : \E k \in S : Trace[keys[k].scan].tag = o.tag[i]
   /\ \A k \in S : LET e == Trace[keys[k].scan].pts
                       at == SelectSeq([i \in DOMAIN o.tag |-> i], LAMBDA i : o.tag[i] = Trace[keys[k].scan].tag)
                   IN Len(at) = Len(e.p[1]) /\ \A j \in DOMAIN at : IsMoved(o, at[j], e, j, To(k))
\* the same through the voxel filter: one centroid per cell with enough points
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
SetSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A y \in S : y <= m IN SelectSeq([i \in 1..m |-> i], LAMBDA i : i \in S)
MovedPoints(S, To(_)) == Cat([i \in DOMAIN SetSeq(S) |-> LET k == SetSeq(S)[i] e == Trace[keys[k].scan].pts IN [j \in DOMAIN e.p[1] |-> TApply(To(k), Row(e.p, j))]])
Cell(p) == [i \in 1..3 |-> RStr(RFloor(RDiv(p[i], Cfg.leaf)))]
Borderline(p) == \E i \in 1..3 : LET f == RDiv(p[i], Cfg.leaf) IN RLeq(RAbs(RSub(f, RFloor(RAdd(f, "0.5")))), "1e-4")
IsVoxelled(o, ps) ==
   LET cells == {Cell(ps[i]) : i \in DOMAIN ps}
       In(x) == {i \in DOMAIN ps : Cell(ps[i]) = x}
       kept == {x \in cells : Cardinality(In(x)) >= Cfg.minpts}
       Centre(x) == LET s == SetSeq(In(x)) IN [k \in 1..3 |-> RDiv(RSum([i \in DOMAIN s |-> ps[s[i]][k]]), Len(s))]
   IN (\E i \in DOMAIN ps : Borderline(ps[i])) \/
      (/\ Len(o.tag) = Cardinality(kept)
       /\ \A x \in kept : LET q == Centre(x) IN \E i \in DOMAIN o.tag : VNearAbs(Row(o.p, i), q, Scaled(VMaxAbs(q))))
Assembled(on, o, S, To(_)) == IF on THEN IsVoxelled(o, MovedPoints(S, To)) ELSE IsUnion(o, S, To)

\* ---- events
Start == IsEvent("mapper") /\ keys' = <<>> /\ c' = l
Path == [i \in DOMAIN E.path |-> [t |-> E.path[i].t, pose |-> <<l, i>>]]
\* a scan and the path it completes
Refused == E.path = <<>> \/ ~\E i \in DOMAIN E.path : E.path[i].t = E.t
Old == SelectSeq(Path, LAMBDA x : x.t # E.t)
Update == IsEvent("upd") /\ UNCHANGED c /\
   LET fixed == Corrected(keys, Old) IN
   IF Refused THEN Ck("a scan without its pose is refused", E.exc /\ Len(E.out) = 0) /\ keys' = fixed
   ELSE LET p == CHOOSE i \in DOMAIN E.path : E.path[i].t = E.t
            T == Lidar(E.path[p].T)
            last == At(fixed[Len(fixed)].pose)
            far == Joins(fixed, p, LAMBDA a, b : RLt(Cfg.thr, Dist(T, last)) \/ RLt(Cfg.rthr, Angle(T, last)))
            unclear == fixed # <<>> /\ (Unclear(Dist(T, last), Cfg.thr) \/ Unclear(Angle(T, last), Cfg.rthr))
        IN /\ Ck("accepted", ~E.exc)
           /\ \E j \in (IF unclear THEN {TRUE, FALSE} ELSE {far}) :
                keys' = (IF j THEN Append(fixed, [t |-> E.t, pose |-> <<l, p>>, scan |-> l]) ELSE fixed)
           /\ Ck("one local map", Len(E.out) = 1)
           /\ Ck("of this state, in the lidar's frame", E.out[1].t = E.t /\ E.out[1].f = Cfg.lidar)
\* what the local map just sent holds: judged with the keyframes after the update
LocalMap == IsEvent("local") /\ UNCHANGED <<keys, c>> /\
   LET u == Trace[l - 1]
       p == CHOOSE i \in DOMAIN u.path : u.path[i].t = u.t
       W == TInv(Lidar(u.path[p].T))
       tos == TLCEval([k \in DOMAIN keys |-> TMul(W, At(keys[k].pose))])
       To(k) == tos[k]
       ds == TLCEval([k \in DOMAIN keys |-> Norm(Trn(tos[k]))])
       D(k) == ds[k]
       Near(i, j) == RLeq(D(i), RAdd(D(j), "1e-4"))
       n == IF Cfg.n < Len(keys) THEN Cfg.n ELSE Len(keys)
       shown == {k \in DOMAIN keys : \E i \in DOMAIN E.tag : E.tag[i] = Trace[keys[k].scan].tag}
       bad == {k \in DOMAIN keys : Cardinality({j \in DOMAIN keys : RLt(RAdd(D(j), "1e-4"), D(k))}) >= n}
       tied == {k \in DOMAIN keys \ bad : Cardinality({j \in DOMAIN keys : RLeq(D(j), RAdd(D(k), "1e-4"))}) > n}
       sure == (DOMAIN keys \ bad) \ tied
   IN IF Judges("P15") THEN Ck("keyframes are those of the specification", Cfg.vlocal \/ \A i \in DOMAIN E.tag : Owner(E, i) # {})
      ELSE IF Cfg.past THEN Ck("the most recent keyframes, in the frame of this state", Assembled(Cfg.vlocal, E, Recent(keys, Cfg.n), To))
      ELSE IF Cfg.vlocal THEN Ck("the nearest keyframes, in the frame of this state", tied # {} \/ Assembled(TRUE, E, sure, To))
      ELSE Ck("the nearest keyframes", IsNearest(keys, shown, Cfg.n, Near)) /\ Ck("in the frame of this state", IsUnion(E, shown, To))
\* the whole map and the pose graph, on request
Global == IsEvent("gmap") /\ UNCHANGED <<keys, c>> /\ Ck("served", E.ok)
   /\ Ck("every keyframe in the map frame", Assembled(Cfg.vglobal, E, DOMAIN keys, LAMBDA k : At(keys[k].pose)))
   /\ (keys # <<>> /\ Len(E.tag) > 0 => Ck("map frame", E.f = Cfg.map))
PoseGraph == IsEvent("graph") /\ UNCHANGED <<keys, c>> /\ Ck("served", E.ok)
   /\ Ck("one entry per keyframe, in time order", [k \in DOMAIN E.ts |-> E.ts[k]] = [k \in DOMAIN keys |-> keys[k].t])
   /\ \A k \in DOMAIN keys : /\ Ck("its scan", E.clouds[k] = Trace[keys[k].scan].pts.p)
                             /\ Ck("its latest pose", LET T == At(keys[k].pose) IN MNearAbs(RotQ(E.qs[k]), Rot(T), "1e-9") /\ VNearAbs(E.ps[k], Trn(T), RMul("1e-9", RAdd(1, VMaxAbs(Trn(T))))))
End == IsEvent("end") /\ UNCHANGED <<keys, c>>
Next == Start \/ Update \/ LocalMap \/ Global \/ PoseGraph \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
