---------------------------- MODULE Registration ----------------------------
(***************************************************************************)
(* Scan registration.  Scans, motion guesses and maps arrive on separate   *)
(* topics, each in order, in any relative order.  Scan k and guess k       *)
(* belong together (same stamp); map k is the map around scan k.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Min2(a, b) == IF a < b THEN a ELSE b
\* motions that can be published once so many scans, guesses and maps are there
Possible(scans, guesses, maps, refine) == LET n == Min2(scans, guesses) - 1 IN IF n < 0 THEN 0 ELSE IF refine THEN Min2(n, maps) ELSE n
\* what the k-th motion is made of
Motion(k, refine) == [scan |-> k + 1, prev |-> k, guess |-> k + 1, map |-> IF refine THEN k ELSE 0]
=============================================================================
