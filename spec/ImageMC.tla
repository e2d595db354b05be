------------------------------- MODULE ImageMC -------------------------------
(***************************************************************************)
(* Any sequence of operations on a picture and its camera: every pixel     *)
(* still shows what its camera says it sees.  turn is the signed           *)
(* permutation that takes the rays of the first camera to those of the     *)
(* present one; it is kept by the handedness and direction of the          *)
(* operations alone, not by their pixel arithmetic.                        *)
(***************************************************************************)
EXTENDS Image, FiniteSets
CONSTANTS MaxW, MaxH, Steps
VARIABLES pic, cam, size0, cam0, turn, did
vars == <<pic, cam, size0, cam0, turn, did>>
Minus(a, b) == a - b
Cameras(w, h) == {<<f, g, cx, cy>> : f \in {2, 3}, g \in {2, 5}, cx \in {0, w, 1}, cy \in {0, 2}}
Init == \E w \in 1..MaxW, h \in 1..MaxH : \E k \in Cameras(w, h) :
        /\ pic = [y \in 1..h |-> [x \in 1..w |-> <<x - 1, y - 1>>]] /\ size0 = <<w, h>> /\ cam = k /\ cam0 = k
        /\ turn = <<<<1, 0>>, <<0, 1>>>> /\ did = <<>>
\* right becomes down when a picture turns clockwise
Dir(op) == CASE op = "cw0" -> <<<<1, 0>>, <<0, 1>>>> [] op = "cw90" -> <<<<0, -1>>, <<1, 0>>>> [] op = "cw180" -> <<<<-1, 0>>, <<0, -1>>>>
             [] op = "cw270" -> <<<<0, 1>>, <<-1, 0>>>> [] op = "horiz" -> <<<<-1, 0>>, <<0, 1>>>> [] op = "vert" -> <<<<1, 0>>, <<0, -1>>>> [] op = "both" -> <<<<-1, 0>>, <<0, -1>>>>
Mul(a, b) == [i \in 1..2 |-> [j \in 1..2 |-> a[i][1] * b[1][j] + a[i][2] * b[2][j]]]
Next == \E op \in Ops : /\ Len(did) < Steps
                        /\ pic' = Shown(op, pic) /\ cam' = Seen(op, SizeOf(pic), cam, Minus) /\ turn' = Mul(Dir(op), turn)
                        /\ did' = Append(did, op) /\ UNCHANGED <<size0, cam0>>
Spec == Init /\ [][Next]_vars
Pixels == {<<x, y>> : x \in 0..SizeOf(pic)[1] - 1, y \in 0..SizeOf(pic)[2] - 1}
At(c) == pic[c[2] + 1][c[1] + 1]
\* ray of a pixel centre, times 2 fx fy
Ray(k, c) == << (2 * c[1] + 1 - 2 * k[3]) * k[2], (2 * c[2] + 1 - 2 * k[4]) * k[1] >>
Consistent == \A c \in Pixels : LET a == Ray(cam0, At(c)) b == Ray(cam, c)
              IN b = << turn[1][1] * a[1] + turn[1][2] * a[2], turn[2][1] * a[1] + turn[2][2] * a[2] >>
NothingLost == Cardinality({At(c) : c \in Pixels}) = size0[1] * size0[2] /\ Cardinality(Pixels) = size0[1] * size0[2]
Shapes == \E op \in Ops \cup {"transpose", "other"} :
   LET s == size0 IN \/ op \in Ops /\ pic = Shown(op, [y \in 1..s[2] |-> [x \in 1..s[1] |-> <<x - 1, y - 1>>]])
                     \/ op \notin Ops /\ pic = Shown(IF op = "transpose" THEN "cw90" ELSE "cw270", Shown("vert", [y \in 1..s[2] |-> [x \in 1..s[1] |-> <<x - 1, y - 1>>]]))
Inverse == [op \in Ops |-> CASE op = "cw90" -> "cw270" [] op = "cw270" -> "cw90" [] OTHER -> op]
Undone == \A op \in Ops : /\ Shown(Inverse[op], Shown(op, pic)) = pic
                          /\ Seen(Inverse[op], Turned(op, SizeOf(pic)), Seen(op, SizeOf(pic), cam, Minus), Minus) = cam
=============================================================================
