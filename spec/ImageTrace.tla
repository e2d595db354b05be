----------------------------- MODULE ImageTrace ------------------------------
(***************************************************************************)
(* P31: recorded image operations and the nodes of camera_tools.           *)
(***************************************************************************)
EXTENDS Image, BigReal, TraceBase
VARIABLES conf          \* the line that configured the node in use
vars == <<l, conf>>
Init == l = 1 /\ conf = 0
Minus(a, b) == RSub(a, b)
SameCam(k, m) == \A i \in 1..4 : RNear(k[i], m[i], "1e-9")
SameAll(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : RNear(a[i], b[i], "1e-12")
Operation == /\ IsEvent("operation") /\ UNCHANGED conf
             /\ LET op == IF E.degrees THEN Degrees(E.d) ELSE E.name
                IN IF op = "none" THEN Ck("only quarter turns", E.exc)
                   ELSE \/ E.degrees /\ (E.d < 0 \/ E.d > 270) /\ E.exc       \* outside the documented range it may be refused
                        \/ /\ Ck("a documented operation works", ~E.exc)
                           /\ Ck("every pixel where it belongs", E.out = Shown(op, E.in))
                           /\ Ck("kind of pixels", E.kind)
                           /\ Ck("size of the camera", E.size = Turned(op, SizeOf(E.in)))
                           /\ Ck("intrinsics of the camera", SameCam(E.cam2, Seen(op, SizeOf(E.in), E.cam, Minus)))
                           /\ Ck("header of the camera", E.header)
                           /\ Ck("the input is left as it was", E.kept)
\* ---- the splitter
\* operations of a part take place in the order of their names: flip, rotate_acw, rotate_cw
OpsOf(part) == (IF part.flip = "" THEN <<>> ELSE <<part.flip>>) \o (IF part.acw = -1 THEN <<>> ELSE <<Degrees(360 - part.acw)>>) \o (IF part.cw = -1 THEN <<>> ELSE <<Degrees(part.cw)>>)
\* a rotation that is refused when read
Odd(d) == d # -1 /\ Degrees(d) = "none"
Outside(d) == d # -1 /\ (d < 0 \/ d > 270)
Wrong(part) == part.bad \/ (part.flip # "" /\ part.flip \notin Ops) \/ Odd(part.acw) \/ Odd(part.cw)
May(part) == Outside(part.acw) \/ Outside(part.cw)
Config == /\ IsEvent("splitter") /\ conf' = l
          /\ LET ps == 1..Len(E.parts)
             IN IF E.bad \/ \E i \in ps : Wrong(E.parts[i]) THEN Ck("a configuration that says nothing is refused", E.exc)
                ELSE \/ \E i \in ps : May(E.parts[i]) /\ E.exc
                     \/ Ck("a documented configuration works", ~E.exc)
C == Trace[conf]
Inside(part, s) == part.u >= 0 /\ part.v >= 0 /\ part.w > 0 /\ part.h > 0 /\ part.u + part.w <= s[1] /\ part.v + part.h <= s[2]
RECURSIVE Pic(_, _), Cam(_, _, _)
Pic(ops, p) == IF ops = <<>> THEN p ELSE Pic(Tail(ops), TLCEval(Shown(ops[1], p)))
Cam(ops, s, k) == IF ops = <<>> THEN k ELSE Cam(Tail(ops), Turned(ops[1], s), TLCEval(Seen(ops[1], s, k, Minus)))
Msgs(kind, part) == {i \in 1..Len(E.out) : E.out[i].kind = kind /\ E.out[i].topic = IF kind = "image" THEN part.topic ELSE part.info}
\* what is published for a part is right
Right(part) ==
   /\ \A i \in Msgs("image", part) : LET m == E.out[i] IN
        /\ Ck("a part of the image", Inside(part, SizeOf(E.in)))
        /\ Ck("its pixels", m.px = Pic(OpsOf(part), TLCEval(Crop(E.in, part.u, part.v, part.w, part.h))))
        /\ Ck("its encoding and layout", m.enc = E.enc /\ m.whole)
        /\ Ck("its header", m.frame = part.frame /\ m.stamp = E.stamp)
   /\ \A i \in Msgs("info", part) : LET m == E.out[i] IN
        /\ Ck("size of the camera", m.size = SizeOf(Pic(OpsOf(part), Crop(E.in, part.u, part.v, part.w, part.h))))
        /\ Ck("intrinsics of the camera", SameCam(m.cam, Cam(OpsOf(part), <<part.w, part.h>>, part.cam)) /\ m.one)
        /\ OpsOf(part) = <<>> => Ck("projection of the camera", SameCam(m.proj, part.cam))
        /\ OpsOf(part) = <<>> => Ck("distortion", m.model = part.model /\ m.dist = part.dist)
        /\ Ck("header of the camera", m.frame = part.frame /\ m.stamp = E.stamp)
Split == /\ IsEvent("split") /\ UNCHANGED conf
         /\ LET ps == 1..Len(C.parts) IN
            /\ Ck("an image that lacks a part ends the node, others do not", E.died = \E i \in ps : ~Inside(C.parts[i], SizeOf(E.in)))
            /\ \A i \in ps : Right(C.parts[i])
            /\ Ck("nothing else is published", \A k \in 1..Len(E.out) : \E i \in ps : k \in Msgs("image", C.parts[i]) \cup Msgs("info", C.parts[i]))
            /\ \A i \in ps : Ck("at most one of each", Cardinality(Msgs("image", C.parts[i])) <= 1 /\ Cardinality(Msgs("info", C.parts[i])) <= 1)
            /\ ~E.died => \A i \in ps : Ck("an image and a camera per part", Msgs("image", C.parts[i]) # {} /\ Msgs("info", C.parts[i]) # {})
\* ---- a camera info for every image
PubInfo == /\ IsEvent("info") /\ UNCHANGED conf
           /\ Ck("one camera info per image", Len(E.out) = 1)
           /\ LET m == E.out[1] c == E.conf IN
              /\ Ck("header and size of the image", m.frame = E.frame /\ m.stamp = E.stamp /\ m.seq = E.seq /\ m.size = E.size)
              /\ Ck("distortion as configured", m.model = c.model /\ m.dist = c.dist)
              /\ Ck("camera matrix as configured", SameAll(m.K, <<c.k[1], 0, c.k[3], 0, c.k[2], c.k[4], 0, 0, 1>>))
              /\ Ck("no rotation", SameAll(m.R, <<1, 0, 0, 0, 1, 0, 0, 0, 1>>))
              /\ Ck("projection as configured", SameAll(m.P, <<c.p[1], 0, c.p[3], RNeg(RMul(c.p[1], c.b)), 0, c.p[2], c.p[4], 0, 0, 0, 1, 0>>))
\* ---- another frame for an image and its camera
Frame == /\ IsEvent("rename") /\ UNCHANGED conf
         /\ IF E.stamp # E.stamp2 THEN Ck("only images with their camera info", E.out = <<>>)
            ELSE /\ Ck("image and camera info once", Len(E.out) = 2 /\ {E.out[i].topic : i \in 1..2} = {"output/image", "output/camera_info"})
                 /\ \A i \in 1..2 : /\ Ck("the new frame", E.out[i].frame = E.to)
                                    /\ Ck("all else as it was", E.out[i].rest = IF E.out[i].topic = "output/image" THEN E.rest[1] ELSE E.rest[2])
Done == IsEvent("end") /\ Ck("trace complete", E.n = Len(Trace) - 1) /\ UNCHANGED conf
Next == Done \/ Operation \/ Config \/ Split \/ PubInfo \/ Frame
Spec == Init /\ [][Next]_vars
=============================================================================
