----------------------------- MODULE TrackTrace ------------------------------
(***************************************************************************)
(* P27, P34: the recorded frames of the stereo feature tracker and of the  *)
(* node around it, with the tracked features as state.                     *)
(***************************************************************************)
EXTENDS Tracker, Stereo, TraceBase
VARIABLES cfg, tracks, next, n, node, dead
vars == <<l, cfg, tracks, next, n, node, dead>>
None == [k |-> "none"]
Init == l = 1 /\ cfg = 0 /\ tracks = <<>> /\ next = 0 /\ n = -1 /\ node = 0 /\ dead = FALSE
\* cfg and node: the line that set them (numbers as text are kept out of the state)
C == Trace[cfg].cfg
Start == IsEvent("tracker") /\ cfg' = l /\ tracks' = <<>> /\ next' = 0 /\ n' = -1 /\ UNCHANGED node /\ dead' = FALSE
         /\ Ck("no frame yet", E.fn = -1)
BadSize == IsEvent("badsize") /\ UNCHANGED <<cfg, tracks, next, n, node, dead>> /\ Ck("images of different sizes are refused", E.exc) /\ Ck("and do not count", E.fn = n)
Same(t, o) == t.id = o.id /\ t.l = o.l /\ t.r = o.r
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
Stats(st, s, k) == /\ Ck("statistics: frame number", st.fn = k)
                   /\ Ck("statistics: identities", st.max = s.stats.max /\ st.longest = s.stats.longest /\ st.ids = s.stats.ids)
                   /\ Ck("statistics: key points", st.tkp = s.stats.tkp /\ st.ekp = s.stats.ekp /\ st.fkp = s.stats.fkp)
                   /\ Ck("statistics: matches", st.tm = s.stats.tm /\ st.nm = s.stats.nm /\ st.tot = s.stats.tot)
Features(s) == /\ Ck("identities of the features", Ids(E.tracks) = Ids(s.tracks))
               /\ Ck("positions of the features", \A i \in 1..Len(s.tracks) : Same(s.tracks[i], E.tracks[i]))
Frame == /\ IsEvent("frame") /\ UNCHANGED <<cfg, node, dead>> /\ n' = n + 1
         /\ Ck("frame processed", ~E.exc)
         /\ Ck("the parts are used as they can be", ~E.odd)
         /\ Ck("one match per identity, of key points that are there", E.sizes)
         /\ LET s == TLCEval(Step(C, tracks, next, E))
            IN /\ Features(s)
               /\ Ck("which key points", \A i \in 1..Len(s.tracks) : s.tracks[i].lc = E.tracks[i].lc /\ s.tracks[i].rc = E.tracks[i].rc)
               /\ Ck("properties of the key points", E.meta)
               /\ Ck("frame number", E.fn = n + 1)
               /\ (Has(E, "stats") => Stats(E.stats, s, n + 1))
               /\ tracks' = s.tracks /\ next' = s.next

\* ---- the node
Eq(a, b) == IF DOMAIN a # DOMAIN b THEN FALSE ELSE \A k \in DOMAIN a : IF k \in {"type", "kind", "score_type", "nonmax_suppression", "use_harris_detector", "count", "eps"} THEN a[k] = b[k] ELSE RNear(a[k], b[k], "1e-6")
Node == /\ IsEvent("finder") /\ node' = l /\ cfg' = l /\ tracks' = <<>> /\ next' = 0 /\ n' = -1 /\ dead' = E.exc
        /\ Ck("settings that name nothing are refused, others not", E.exc = (E.bad # ""))
        /\ ~E.exc => /\ Ck("detector as configured", E.made.detector # <<>> /\ Eq(E.want.detector, E.made.detector))
                     /\ Ck("optical flow as configured", E.made.flow # <<>> /\ Eq(E.want.flow, E.made.flow))
Pictures == {"stereo/left/extracted_keypoints/image", "stereo/right/extracted_keypoints/image", "stereo/left/sof_matches/image", "stereo/right/sof_matches/image", "stereo/stereo_filtered_matches/image", "stereo/new_matches/image", "stereo/tracked_matches/image"}
N == Trace[node]
Expected(full) == (IF full THEN {"stereo/features"} ELSE {}) \cup (IF N.stats THEN {"stereo/statistics"} ELSE {}) \cup (IF N.points /\ full THEN {"stereo/track_points"} ELSE {}) \cup (IF N.pics THEN Pictures ELSE {})
Point(t) == BackProject(<<E.cam[1], E.cam[2], E.cam[3], E.cam[4]>>, E.b, <<RDiv(t.l[1], 4), RDiv(t.r[1], 4), RDiv(t.l[2] + t.r[2], 8)>>)
Near3(p, q) == \A i \in 1..3 : RLeq(RAbs(RSub(p[i], q[i])), RMul("1e-4", RAdd(1, RAbs(q[i])))) \/ RLeq(RAbs(RSub(p[i], q[i])), RMul("1e-5", RAbs(q[3])))
Views == /\ IsEvent("views") /\ ~dead /\ UNCHANGED <<cfg, node>>
         /\ IF ~E.complete
            THEN /\ Ck("nothing without all four messages", E.topics = <<>> /\ ~E.died)
                 /\ UNCHANGED <<tracks, next, n, dead>>
            ELSE LET first == n = -1
                     die1 == first /\ C.dist # <<>> /\ E.wrong # 0
                     die2 == ~die1 /\ N.points /\ E.wrong = 1
                     s == TLCEval(Step(C, tracks, next, E))
                 IN /\ Ck("cameras that are no stereo pair are refused, others not", E.died = (die1 \/ die2))
                    /\ dead' = E.died
                    /\ IF die1 THEN UNCHANGED <<tracks, next, n>> ELSE tracks' = s.tracks /\ next' = s.next /\ n' = n + 1
                    /\ E.died \/ ( /\ Ck("the parts are used as they can be", ~E.odd)
                                   /\ Ck("everything is published once", Len(E.topics) = Cardinality(Expected(TRUE)) /\ {E.topics[i] : i \in 1..Len(E.topics)} = Expected(TRUE))
                                   /\ Ck("time and frame of the left image", E.header)
                                   /\ Ck("the camera infos are passed on", E.infos)
                                   /\ Features(s)
                                   /\ (N.stats => Stats(E.stats, s, n + 1))
                                   /\ (N.points => Ck("a point per feature, where its disparity puts it", Len(E.points) = Len(s.tracks) /\ \A i \in 1..Len(s.tracks) : Near3(E.points[i], Point(s.tracks[i])))) )
Done == IsEvent("end") /\ Ck("trace complete", E.n = Len(Trace) - 1) /\ UNCHANGED <<cfg, tracks, next, n, node, dead>>
Next == Done \/ Start \/ BadSize \/ Frame \/ Node \/ Views
Spec == Init /\ [][Next]_vars
=============================================================================
