------------------------------- MODULE Rigid --------------------------------
(***************************************************************************)
(* Rigid-body geometry and first-order uncertainty propagation: the        *)
(* definitions that all numeric parts of the specification build on.       *)
(* Vectors are sequences; matrices are sequences of rows; a rigid          *)
(* transform T_A^B ("B in the reference frame of A") is the 3x4 matrix     *)
(* [R | t].  Twists and 6x6 covariances are ordered [rotation, translation]*)
(***************************************************************************)
EXTENDS BigReal, Sequences

Rows(M) == Len(M)
Cols(M) == Len(M[1])
Mat(n, m, F(_,_)) == [i \in 1..n |-> [j \in 1..m |-> F(i, j)]]
Tr(M) == Mat(Cols(M), Rows(M), LAMBDA i, j : M[j][i])
MMul(A, B) == RMatMul(A, B)
MAdd(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : RAdd(A[i][j], B[i][j]))
MSub(A, B) == Mat(Rows(A), Cols(A), LAMBDA i, j : RSub(A[i][j], B[i][j]))
MScale(s, A) == Mat(Rows(A), Cols(A), LAMBDA i, j : RMul(s, A[i][j]))
Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)
Zeros(n, m) == Mat(n, m, LAMBDA i, j : 0)
ColV(v) == [i \in 1..Len(v) |-> <<v[i]>>]            \* vector -> column matrix
VecC(M) == [i \in 1..Len(M) |-> M[i][1]]             \* column matrix -> vector
MVec(A, v) == [i \in 1..Rows(A) |-> RDot(A[i], v)]
VAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(s, v) == [i \in 1..Len(v) |-> RMul(s, v[i])]
Dot(u, v) == RDot(u, v)
Norm2(v) == RDot(v, v)
Norm(v) == RSqrt(Norm2(v))
Cross(u, v) == << RSub(RMul(u[2], v[3]), RMul(u[3], v[2])),
                  RSub(RMul(u[3], v[1]), RMul(u[1], v[3])),
                  RSub(RMul(u[1], v[2]), RMul(u[2], v[1])) >>
Skew(v) == << <<0, RNeg(v[3]), v[2]>>, <<v[3], 0, RNeg(v[1])>>, <<RNeg(v[2]), v[1], 0>> >>
Block(M, r, c, n, m) == Mat(n, m, LAMBDA i, j : M[r + i][c + j])     \* offsets from 0

MaxAbs(M) == LET F[k \in 0..(Rows(M) * Cols(M))] ==
                     IF k = 0 THEN RReal(0)
                     ELSE RMax(F[k-1], RAbs(M[((k-1) \div Cols(M)) + 1][((k-1) % Cols(M)) + 1]))
             IN  F[Rows(M) * Cols(M)]
VMaxAbs(v) == MaxAbs(<<v>>)

\* Elementwise closeness.  MNear: each element relative to its own magnitude (plus one);
\* MNearAbs: absolute tolerance supplied by the caller.
SameShape(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i])
MNear(A, B, tol) == SameShape(A, B) /\ \A i \in 1..Len(A), j \in 1..Len(A[1]) : RNear(A[i][j], B[i][j], tol)
MNearAbs(A, B, atol) == SameShape(A, B)
                        /\ \A i \in 1..Len(A), j \in 1..Len(A[1]) : RLeq(RAbs(RSub(A[i][j], B[i][j])), atol)
VNear(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], tol)
VNearAbs(u, v, atol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : RLeq(RAbs(RSub(u[i], v[i])), atol)
\* closeness relative to the largest entry of B (or a scale given by the caller)
MNearRel(A, B, rel) == MNearAbs(A, B, RMul(rel, RMax(MaxAbs(B), "1e-30")))
VNearRel(u, v, rel) == VNearAbs(u, v, RMul(rel, RMax(VMaxAbs(v), "1e-30")))
MFinite(A) == \A i \in 1..Len(A), j \in 1..Len(A[1]) : RFinite(A[i][j])
VFinite(v) == \A i \in 1..Len(v) : RFinite(v[i])

-----------------------------------------------------------------------------
(* Rigid transforms *)
Rot(T) == Block(T, 0, 0, 3, 3)
Trn(T) == << T[1][4], T[2][4], T[3][4] >>
MkT(R, t) == [i \in 1..3 |-> <<R[i][1], R[i][2], R[i][3], t[i]>>]
IdT == MkT(Eye(3), <<0, 0, 0>>)
TMul(A, B) == MkT(MMul(Rot(A), Rot(B)), VAdd(MVec(Rot(A), Trn(B)), Trn(A)))
TInv(A) == LET Rt == Tr(Rot(A)) IN MkT(Rt, VScale(-1, MVec(Rt, Trn(A))))
TApply(A, p) == VAdd(MVec(Rot(A), p), Trn(A))
Relative(A, B) == TMul(TInv(A), B)
\* the motion of frame B given the motion of rigidly attached frame A and T_B^A
ChangeFrame(relA, T_BA) == TMul(TMul(T_BA, relA), TInv(T_BA))
IsRotation(R, tol) == MNear(MMul(R, Tr(R)), Eye(3), tol)

\* rotation vector -> rotation matrix (Rodrigues), angle 0 giving the identity
RotOf(w) == LET a == Norm(w)
            IN IF REq(a, 0) THEN Eye(3)
               ELSE LET k == VScale(RDiv(1, a), w)
                        K == Skew(k)
                    IN MAdd(MAdd(Eye(3), MScale(RSin(a), K)), MScale(RSub(1, RCos(a)), MMul(K, K)))
\* unit quaternion <<w, x, y, z>> -> rotation matrix
RotQ(q) == LET w == q[1] v == <<q[2], q[3], q[4]>>
               K == Skew(v)
           IN MAdd(MAdd(Eye(3), MScale(RMul(2, w), K)), MScale(2, MMul(K, K)))
QMul(a, b) == LET av == <<a[2], a[3], a[4]>> bv == <<b[2], b[3], b[4]>>
                  c == VAdd(VAdd(VScale(a[1], bv), VScale(b[1], av)), Cross(av, bv))
              IN << RSub(RMul(a[1], b[1]), Dot(av, bv)), c[1], c[2], c[3] >>
QConj(q) == << q[1], RNeg(q[2]), RNeg(q[3]), RNeg(q[4]) >>

Adj(T) == LET R == Rot(T)
              S == MMul(Skew(Trn(T)), R)
          IN Mat(6, 6, LAMBDA i, j :
                CASE i <= 3 /\ j <= 3 -> R[i][j]
                  [] i <= 3 /\ j > 3  -> 0
                  [] i > 3 /\ j <= 3  -> S[i-3][j]
                  [] OTHER            -> R[i-3][j-3])

(* Covariances *)
Congruence(A, C) == MMul(MMul(A, C), Tr(A))          \* A C A^T
ChangeCov(C, T_BA) == Congruence(Adj(T_BA), C)
ComposeCov(P, Q, T, X) ==
    LET A == Adj(TInv(T))
    IN MAdd(MAdd(Congruence(A, P), Q), MAdd(MMul(X, Tr(A)), MMul(A, Tr(X))))
ReorderCov(C, b) == LET n == Len(C)
                    IN Mat(n, n, LAMBDA i, j : C[((i - 1 + b) % n) + 1][((j - 1 + b) % n) + 1])
RotateCov(C, R) == Congruence(R, C)

Symmetric(C, prec) == \A i \in 1..Len(C), j \in 1..Len(C) : RLeq(RAbs(RSub(C[i][j], C[j][i])), prec)
\* positive definite (Cholesky pivots of the lower triangle, by Gaussian elimination)
RECURSIVE PD(_)
PD(C) == IF Len(C) = 0 THEN TRUE
         ELSE RLt(0, C[1][1]) /\
              (IF Len(C) = 1 THEN TRUE
               ELSE PD(Mat(Len(C) - 1, Len(C) - 1, LAMBDA i, j :
                    RSub(C[IF i >= j THEN i+1 ELSE j+1][IF i >= j THEN j+1 ELSE i+1],
                         RDiv(RMul(C[i+1][1], C[j+1][1]), C[1][1])))))
ValidCov(C, prec) == /\ Len(C) = Len(C[1]) /\ MFinite(C)
                     /\ PD(C) /\ Symmetric(C, prec)
=============================================================================
