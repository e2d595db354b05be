------------------------------ MODULE Mapping -------------------------------
(***************************************************************************)
(* The map: keyframes in time order, each [t, pose, scan].  Poses and      *)
(* distances are the user's: Far(a, b) says whether two poses differ by    *)
(* more than the configured distance or angle.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* the poses of a path that belong to existing keyframes replace theirs
Corrected(keys, path) == [i \in DOMAIN keys |->
   LET c == {j \in DOMAIN path : path[j].t = keys[i].t} IN IF c = {} THEN keys[i] ELSE [keys[i] EXCEPT !.pose = path[CHOOSE j \in c : \A k \in c : k <= j].pose]]
\* the scan of time t at pose p joins when it is far from the latest keyframe
Joins(keys, p, Far(_, _)) == keys = <<>> \/ Far(p, keys[Len(keys)].pose)
\* choices of n keyframes for a local map at pose p: the most recent, or the nearest (Near(i, j): i is no further from p than j)
Recent(keys, n) == LET k == Len(keys) IN {i \in 1..k : i > k - n}
IsNearest(keys, S, n, Near(_, _)) == /\ S \subseteq 1..Len(keys) /\ Cardinality(S) = (IF n < Len(keys) THEN n ELSE Len(keys))
                                     /\ \A i \in S, j \in (1..Len(keys)) \ S : Near(i, j)
=============================================================================
