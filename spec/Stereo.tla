------------------------------- MODULE Stereo -------------------------------
(***************************************************************************)
(* Stereo vision: window statistics, matching costs, candidate search, the *)
(* matching filters and stereo projection.  An image is a sequence of rows *)
(* of pixel values; a window is <<x, y, w, h>> with its top-left pixel at  *)
(* column x, row y (from 0).                                               *)
(***************************************************************************)
EXTENDS BigReal, Integers, Sequences, FiniteSets

ImgRows(im) == Len(im)
ImgCols(im) == Len(im[1])
Inside(im, x, y, w, h) == x >= 0 /\ y >= 0 /\ x + w <= ImgCols(im) /\ y + h <= ImgRows(im)
Pix(im, x, y, w, h) == [k \in 1..(w * h) |-> im[y + 1 + ((k - 1) \div w)][x + 1 + ((k - 1) % w)]]

Sum(s) == RSum(s)
SumSq(s) == RDot(s, s)
Mean(s) == RDiv(Sum(s), Len(s))

\* Matching cost of two windows' pixels (a: reference, b: candidate)
Cost(kind, a, b) ==
  LET n == Len(a)
  IN CASE kind = "SAD" -> RSum([k \in 1..n |-> IF a[k] >= b[k] THEN a[k] - b[k] ELSE b[k] - a[k]])
       [] kind = "SSD" -> RSum([k \in 1..n |-> (a[k] - b[k]) * (a[k] - b[k])])
       [] kind = "ZSAD" -> LET s == RSub(Mean(a), Mean(b))
                           IN RSum([k \in 1..n |-> RAbs(RSub(a[k] - b[k], s))])
       [] kind = "LSSAD" -> LET q == RDiv(Mean(a), Mean(b))
                            IN RSum([k \in 1..n |-> RAbs(RSub(a[k], RMul(q, b[k])))])
       [] kind = "NCC" -> RNeg(RDiv(RDot(a, b), RSqrt(RMul(SumSq(a), SumSq(b)))))
Kinds == {"SAD", "SSD", "ZSAD", "LSSAD", "NCC"}

\* Everything below is for a configuration c = [kind, w, h, filter, rn, rd, v4] and images L, R; key point
\* coordinates and the vertical threshold are in quarter pixels.
TopLeft(c, p) == << (p[1] \div 4) - ((c.w - 1) \div 2), (p[2] \div 4) - ((c.h - 1) \div 2) >>
WCost(c, ref, oth, a, b) == Cost(c.kind, Pix(ref, a[1], a[2], c.w, c.h), Pix(oth, b[1], b[2], c.w, c.h))
In(c, im, tl) == Inside(im, tl[1], tl[2], c.w, c.h)

Eps(x) == RMul("1e-9", RAdd(1, RAbs(x)))
MinOf(S, F) == CHOOSE m \in {F[k] : k \in S} : \A k \in S : RLeq(m, F[k])

\* Is "matched" an allowed answer of the ratio test / must it be?  best: index of the minimum; K: candidate set
RatioAllows(c, F, K, best, ans) ==
   IF Cardinality(K) = 1 THEN ans = TRUE
   ELSE LET second == MinOf(K \ {best}, F)
            lim == RMul(RDiv(c.rn, c.rd), second)
        IN IF RLt(F[best], RSub(lim, Eps(lim))) THEN ans = TRUE
           ELSE IF RLt(RAdd(lim, Eps(lim)), F[best]) THEN ans = FALSE
           ELSE TRUE                                    \* exactly on the limit (or 0 against 0): either

\* Dense search along the row.  tl: reference window; the candidates are the windows at or beyond the reference
\* column on the side the other camera sees the point.
DenseCols(c, im, tl, right) == IF right THEN 0..tl[1] ELSE tl[1]..(ImgCols(im) - c.w)
DenseCosts(c, ref, oth, tl, right) ==
   LET K == DenseCols(c, oth, tl, right) IN [x \in K |-> WCost(c, ref, oth, tl, <<x, tl[2]>>)]
DenseReverse(c, ref, oth, found, right) ==        \* search back from the found window
   LET K == DenseCols(c, ref, found, ~right) IN [x \in K |-> WCost(c, ref, oth, <<x, found[2]>>, found)]

\* Sparse search over key points of the other image
Admissible(c, oth, p, q, right) ==
   /\ q[2] - p[2] <= c.v4 /\ p[2] - q[2] <= c.v4
   /\ IF right THEN q[1] <= p[1] ELSE q[1] >= p[1]
   /\ In(c, oth, TopLeft(c, q))
SparseCosts(c, ref, oth, p, Q, right) ==
   LET K == IF In(c, ref, TopLeft(c, p)) THEN {i \in 1..Len(Q) : Admissible(c, oth, p, Q[i], right)} ELSE {}
   IN [i \in K |-> WCost(c, ref, oth, TopLeft(c, p), TopLeft(c, Q[i]))]
Near2(a, b) == RLeq(RAbs(RSub(a, b)), Eps(b))

-----------------------------------------------------------------------------
(* Match filters: the positions (from 0) of the kept matches *)
Kept(n, Keep(_)) == LET F[i \in 0..n] == IF i = 0 THEN <<>> ELSE IF Keep(i) THEN Append(F[i-1], i - 1) ELSE F[i-1] IN F[n]

(* Stereo camera K = <<fx, fy, cx, cy>> *)
Project(K, b, p) == << RAdd(K[3], RDiv(RMul(K[1], p[1]), p[3])),
                       RAdd(K[3], RDiv(RMul(K[1], RSub(p[1], b)), p[3])),
                       RAdd(K[4], RDiv(RMul(K[2], p[2]), p[3])) >>
BackProject(K, b, s) == LET d == RSub(s[1], s[2]) z == RDiv(RMul(K[1], b), d)
                        IN << RDiv(RMul(RSub(s[1], K[3]), z), K[1]), RDiv(RMul(RSub(s[3], K[4]), z), K[2]), z >>
=============================================================================
