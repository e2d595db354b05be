------------------------------ MODULE RigidMC -------------------------------
(***************************************************************************)
(* Design check of the Rigid module on an exact lattice: a robot body with *)
(* a rigidly mounted sensor moves by unit translations and quarter turns;  *)
(* TLC visits every reachable pair (previous pose, pose) within the bounds *)
(* and evaluates the frame-algebra laws the code's callers rely on.        *)
(***************************************************************************)
EXTENDS Rigid, TLC, FiniteSets
CONSTANTS MaxT, MaxSteps
VARIABLES prev, pose, steps
vars == <<prev, pose, steps>>

Qx == << <<1,0,0>>, <<0,0,-1>>, <<0,1,0>> >>
Qy == << <<0,0,1>>, <<0,1,0>>, <<-1,0,0>> >>
Qz == << <<0,-1,0>>, <<1,0,0>>, <<0,0,1>> >>
IMul(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j]]]
IVec(A, v) == [i \in 1..3 |-> A[i][1]*v[1] + A[i][2]*v[2] + A[i][3]*v[3]]
I3 == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
Z3 == <<0,0,0>>
Moves == { <<Qx, Z3>>, <<Qy, Z3>>, <<Qz, Z3>>, <<I3, <<1,0,0>> >>, <<I3, <<0,1,0>> >>, <<I3, <<0,0,-1>> >> }
IT(x) == MkT(x[1], x[2])
ITMul(a, b) == <<IMul(a[1], b[1]), [i \in 1..3 |-> IVec(a[1], b[2])[i] + a[2][i]]>>
Mount == MkT(IMul(Qx, Qz), <<2, -1, 3>>)          \* T_sensor^body

Init == prev = <<I3, Z3>> /\ pose = <<I3, Z3>> /\ steps = 0
Move(m) == LET p == ITMul(pose, m)
           IN /\ steps < MaxSteps
              /\ \A i \in 1..3 : p[2][i] \in -MaxT..MaxT
              /\ prev' = pose /\ pose' = p /\ steps' = steps + 1
Next == \E m \in Moves : Move(m)
Spec == Init /\ [][Next]_vars

A == IT(prev)
B == IT(pose)
Same(X, Y) == MNear(X, Y, 0)
RelativeLaw == Same(TMul(A, Relative(A, B)), B) /\ Same(TMul(Relative(A, B), Relative(B, A)), IdT)
\* body motion seen by the sensor = relative transform of the sensor's own poses
SensorLaw == LET relS == ChangeFrame(Relative(A, B), Mount)
             IN /\ Same(relS, Relative(TMul(A, TInv(Mount)), TMul(B, TInv(Mount))))
                /\ Same(ChangeFrame(relS, TInv(Mount)), Relative(A, B))
AdjointLaw == /\ Same(Adj(TMul(A, B)), MMul(Adj(A), Adj(B)))
              /\ Same(MMul(Adj(A), Adj(TInv(A))), Eye(6))
P0 == Mat(6, 6, LAMBDA i, j : IF i = j THEN i + 3 ELSE IF i + j = 7 THEN 1 ELSE 0)
Q0 == Mat(6, 6, LAMBDA i, j : IF i = j THEN 7 - i ELSE 0)
CovarianceLaws ==
    LET X0 == Zeros(6, 6)
        rel == Relative(A, B)
    IN /\ \A b \in 1..5 : Same(ReorderCov(ReorderCov(P0, b), 6 - b), P0)
       /\ Same(ChangeCov(ChangeCov(P0, A), TInv(A)), P0)
       /\ Symmetric(ComposeCov(P0, Q0, rel, X0), 0) /\ ValidCov(ComposeCov(P0, Q0, rel, X0), 0)
       /\ Same(ComposeCov(ComposeCov(P0, Q0, rel, X0), Q0, B, X0), ComposeCov(P0, ComposeCov(Q0, Q0, B, X0), TMul(rel, B), X0))
=============================================================================
