------------------------------- MODULE Front --------------------------------
(***************************************************************************)
(* What the front end owes for the streams it is given: state times, the   *)
(* IMU samples that cover an interval, barometer values at state times.    *)
(* Streams are sequences of strictly increasing times.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LeastOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MostOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Last(s) == s[Len(s)]
\* the camera frame a state is placed at: the first at or after the scan's start, if the next scan starts later; 0: none
FrameFor(fs, start, next) == LET c == {i \in DOMAIN fs : fs[i] >= start} IN
   IF c # {} /\ fs[LeastOf(c)] < next THEN LeastOf(c) ELSE 0
StateTime(fs, start, next) == LET i == FrameFor(fs, start, next) IN IF i = 0 THEN start ELSE fs[i]
\* a choice of frame is final once a frame at or after the start is there
FrameKnown(fs, start) == \E i \in DOMAIN fs : fs[i] >= start
\* a sample stands from its own time to that of the next one: the samples standing during [a, b)
Needed(s, a, b) == {i \in DOMAIN s : s[i] < b /\ (s[i] >= a \/ (i < Len(s) /\ s[i + 1] > a))}
InOrder(S) == [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y <= x}) = k]
\* how a barometer value for time t comes about: 0 not yet, 1 from the first measurement, 2 between i and i + 1
Pressure(bs, t) == IF bs = <<>> THEN [how |-> 0, i |-> 0]
   ELSE IF bs[1] > t THEN [how |-> 1, i |-> 1]
   ELSE IF Last(bs) > t THEN [how |-> 2, i |-> LeastOf({i \in 1..(Len(bs) - 1) : bs[i + 1] >= t})]
   ELSE [how |-> 0, i |-> 0]
\* states served so far: the longest prefix that can be
RECURSIVE Served(_, _)
Served(bs, ts) == IF ts = <<>> \/ Pressure(bs, ts[1]).how = 0 THEN 0 ELSE 1 + Served(bs, Tail(ts))
=============================================================================
