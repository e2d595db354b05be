------------------------------ MODULE FramesMC ------------------------------
(***************************************************************************)
(* Design check: every tree of up to MaxN frames with edges from the       *)
(* non-commutative group of permutations of three things.  In every tree   *)
(* the transforms between frames form a consistent system.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT MaxN
VARIABLE N
Perms == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
PMul(a, b) == [i \in 1..3 |-> a[b[i]]]
PId == [i \in 1..3 |-> i]
PInv(a) == CHOOSE b \in Perms : PMul(a, b) = PId
F == INSTANCE Frames WITH Mul <- PMul, Inv <- PInv, Id <- PId
Init == N = << [name |-> 1, parent |-> 0, T |-> PId] >>
Next == /\ Len(N) < MaxN
        /\ \E p \in 1..Len(N), t \in Perms : N' = Append(N, [name |-> Len(N) + 1, parent |-> p, T |-> t])
Names == 1..Len(N)
Edges == \A k \in 2..Len(N) : F!Between(N, N[k].parent, k) = N[k].T
SelfId == \A a \in Names : F!Between(N, a, a) = PId
Reverse == \A a, b \in Names : PMul(F!Between(N, a, b), F!Between(N, b, a)) = PId
Chain == \A a, b, c \in Names : PMul(F!Between(N, a, b), F!Between(N, b, c)) = F!Between(N, a, c)
=============================================================================
