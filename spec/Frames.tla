------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* A tree of named frames.  N is a sequence of nodes, the first being the  *)
(* body; each other node names its parent and its pose in the parent (an   *)
(* element of a group with product Mul, inverse Inv and identity Id).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Mul(_, _), Inv(_), Id
NodeOf(N, name) == CHOOSE k \in DOMAIN N : N[k].name = name
Known(N, name) == \E k \in DOMAIN N : N[k].name = name
\* pose of a frame in the body frame: the product of the edges on the way down
RECURSIVE InBody(_, _)
InBody(N, name) == LET k == NodeOf(N, name) IN IF k = 1 THEN Id ELSE Mul(InBody(N, N[k].parent), N[k].T)
\* T_a^b
Between(N, a, b) == Mul(Inv(InBody(N, a)), InBody(N, b))
\* names, frame ids and aliases must be unambiguous
Ids(N) == [k \in DOMAIN N |-> <<N[k].id>> \o N[k].aliases]
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flatten(Tail(s))
Unambiguous(N) == Distinct([k \in DOMAIN N |-> N[k].name]) /\ Distinct(Flatten(Ids(N)))
=============================================================================
