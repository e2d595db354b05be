-------------------------------- MODULE Image --------------------------------
(***************************************************************************)
(* The image operations of camera_tools: quarter turns and mirror images   *)
(* of pictures together with the calibration of the camera that took them. *)
(* A picture is a sequence of rows; sizes are <<width, height>>; pixels    *)
(* are counted from <<0, 0>>, and pixel x covers [x, x + 1) of the         *)
(* continuous coordinates in which the principal point is given.           *)
(* A camera is <<fx, fy, cx, cy>>.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
Ops == {"cw0", "cw90", "cw180", "cw270", "horiz", "vert", "both"}
Quarter == {"cw90", "cw270"}
Turned(op, s) == IF op \in Quarter THEN <<s[2], s[1]>> ELSE s
\* the pixel of a picture of size s that is shown at (x, y) after op
Source(op, s, x, y) == CASE op = "cw0" -> <<x, y>>
                         [] op = "cw90" -> <<y, s[2] - 1 - x>>
                         [] op = "cw180" -> <<s[1] - 1 - x, s[2] - 1 - y>>
                         [] op = "cw270" -> <<s[1] - 1 - y, x>>
                         [] op = "horiz" -> <<s[1] - 1 - x, y>>
                         [] op = "vert" -> <<x, s[2] - 1 - y>>
                         [] op = "both" -> <<s[1] - 1 - x, s[2] - 1 - y>>
SizeOf(p) == <<IF Len(p) = 0 THEN 0 ELSE Len(p[1]), Len(p)>>
Shown(op, p) == LET s == SizeOf(p) t == Turned(op, s)
                IN [y \in 1..t[2] |-> [x \in 1..t[1] |-> LET c == Source(op, s, x - 1, y - 1) IN p[c[2] + 1][c[1] + 1]]]
Crop(p, u, v, w, h) == [y \in 1..h |-> [x \in 1..w |-> p[v + y][u + x]]]
\* the same for the camera; minus is the subtraction of the numbers in use
Seen(op, s, k, Minus(_, _)) ==
   CASE op = "cw0" -> k
     [] op = "cw90" -> <<k[2], k[1], Minus(s[2], k[4]), k[3]>>
     [] op = "cw180" -> <<k[1], k[2], Minus(s[1], k[3]), Minus(s[2], k[4])>>
     [] op = "cw270" -> <<k[2], k[1], k[4], Minus(s[1], k[3])>>
     [] op = "horiz" -> <<k[1], k[2], Minus(s[1], k[3]), k[4]>>
     [] op = "vert" -> <<k[1], k[2], k[3], Minus(s[2], k[4])>>
     [] op = "both" -> <<k[1], k[2], Minus(s[1], k[3]), Minus(s[2], k[4])>>
\* a rotation by a number of degrees clockwise
Degrees(d) == CASE d % 360 = 0 -> "cw0" [] d % 360 = 90 -> "cw90" [] d % 360 = 180 -> "cw180" [] d % 360 = 270 -> "cw270" [] OTHER -> "none"
=============================================================================
