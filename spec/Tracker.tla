------------------------------- MODULE Tracker -------------------------------
(***************************************************************************)
(* The stereo feature tracker: what becomes of the tracked features in one *)
(* frame, as a function of what its parts (detector, optical flow, stereo  *)
(* matching) find.  Pixel coordinates are in quarter pixels.               *)
(*   cfg  roi   <<>> or <<x, y, w, h>> in pixels: where features are looked for *)
(*        near  new features keep this distance from tracked ones          *)
(*        v     vertical distance allowed between left and right           *)
(*        dist  <<>> or <<k, min, max>>: allowed distances, k = 8 fx b     *)
(*        mode  "table", or the matching filter of a real matcher          *)
(*        limit cost a match must be below; rn / rd the ratio              *)
(*   frame ext  <<left, right>> found key points <<x, y, name>>            *)
(*        flow  <<left, right>> of <<x, y, found, x', y'>>                  *)
(*        pair  per left key point what the matcher answers (mode "table") *)
(*        cost  <<left name, right name, cost, cost matching back>> of the *)
(*              admissible pairs                                           *)
(*   track [id, l, r, lc, rc]: positions and what the key points are       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, BigReal
Abs(x) == IF x < 0 THEN -x ELSE x
\* the elements that satisfy Keep, in order; images under F
Filter(s, Keep(_)) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF Keep(s[i]) THEN Append(F[i - 1], s[i]) ELSE F[i - 1] IN F[Len(s)]
Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
Places(s, Keep(_)) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF Keep(i) THEN Append(F[i - 1], i) ELSE F[i - 1] IN F[Len(s)]

Stereo(cfg, l, r) == l[1] > r[1] /\ Abs(l[2] - r[2]) <= cfg.v
Distance(cfg, l, r) == cfg.dist = <<>> \/ (l[1] > r[1] /\ cfg.dist[1] >= 2 * cfg.dist[2] * (l[1] - r[1]) /\ cfg.dist[1] <= 2 * cfg.dist[3] * (l[1] - r[1]))
Fits(cfg, l, r) == Stereo(cfg, l, r) /\ Distance(cfg, l, r)

\* ---- the features of the previous frame
Flow(f, s, p) == LET k == CHOOSE k \in 1..Len(f.flow[s]) : f.flow[s][k][1] = p[1] /\ f.flow[s][k][2] = p[2] IN f.flow[s][k]
Found(f, t) == Flow(f, 1, t.l)[3] /\ Flow(f, 2, t.r)[3]
Moved(f, t) == LET a == Flow(f, 1, t.l) b == Flow(f, 2, t.r) IN [t EXCEPT !.l = <<a[4], a[5]>>, !.r = <<b[4], b[5]>>]
Hypotheses(f, tracks) == LET K(t) == Found(f, t) M(t) == Moved(f, t) IN Map(Filter(tracks, K), M)

\* ---- new features
InRoi(cfg, p) == cfg.roi = <<>> \/ LET x == (p[1] + 2) \div 4 y == (p[2] + 2) \div 4
                                   IN x >= cfg.roi[1] /\ x < cfg.roi[1] + cfg.roi[3] /\ y >= cfg.roi[2] /\ y < cfg.roi[2] + cfg.roi[4]
Close(cfg, p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2]) <= cfg.near * cfg.near
Extracted(cfg, f, s) == LET K(p) == InRoi(cfg, p) IN Filter(f.ext[s], K)
Fresh(cfg, f, s, hyp) == LET K(p) == ~\E i \in 1..Len(hyp) : Close(cfg, IF s = 1 THEN hyp[i].l ELSE hyp[i].r, p) IN Filter(Extracted(cfg, f, s), K)
NameAt(S, c) == LET K == {i \in 1..Len(S) : S[i][3] = c} IN IF K = {} THEN 0 ELSE CHOOSE i \in K : TRUE
\* the matcher: <<place in R or 0, cost>>
TableAnswer(f, p, R) == LET k == CHOOSE k \in 1..Len(f.pair) : f.pair[k][1] = p[3] IN << NameAt(R, f.pair[k][2]), f.pair[k][3] >>
\* candidates of p among S; row(c, d): is there a cost, and which
LeftCosts(f, p, R) == LET K == {i \in 1..Len(R) : \E k \in 1..Len(f.cost) : f.cost[k][1] = p[3] /\ f.cost[k][2] = R[i][3]}
                      IN [i \in K |-> f.cost[CHOOSE k \in 1..Len(f.cost) : f.cost[k][1] = p[3] /\ f.cost[k][2] = R[i][3]][3]]
RightCosts(f, q, L) == LET K == {i \in 1..Len(L) : \E k \in 1..Len(f.cost) : f.cost[k][2] = q[3] /\ f.cost[k][1] = L[i][3]}
                       IN [i \in K |-> f.cost[CHOOSE k \in 1..Len(f.cost) : f.cost[k][2] = q[3] /\ f.cost[k][1] = L[i][3]][4]]
Best(F) == CHOOSE i \in DOMAIN F : \A j \in DOMAIN F : RLeq(F[i], F[j])
RealAnswer(cfg, f, p, L, R) ==
   LET F == TLCEval(LeftCosts(f, p, R))
       b == Best(F)
   IN IF DOMAIN F = {} THEN <<0, 0>>
      ELSE CASE cfg.mode = "UNIDIRECTIONAL" -> <<b, F[b]>>
             [] cfg.mode = "BIDIRECTIONAL" -> IF L[Best(RightCosts(f, R[b], L))] = p THEN <<b, F[b]>> ELSE <<0, 0>>
             [] cfg.mode = "RATIO_TEST" -> IF \A j \in DOMAIN F \ {b} : RLeq(RMul(cfg.rd, F[b]), RMul(cfg.rn, F[j])) THEN <<b, F[b]>> ELSE <<0, 0>>
Answer(cfg, f, p, L, R) == IF cfg.mode = "table" THEN TableAnswer(f, p, R) ELSE RealAnswer(cfg, f, p, L, R)
\* the new pairs, in the order of the left key points
Pairs(cfg, f, L, R) ==
   LET A == TLCEval([i \in 1..Len(L) |-> Answer(cfg, f, L[i], L, R)])
       K(i) == A[i][1] # 0 /\ RLt(A[i][2], cfg.limit) /\ Fits(cfg, L[i], R[A[i][1]])
       I == Places(L, K)
   IN [k \in 1..Len(I) |-> <<L[I[k]], R[A[I[k]][1]]>>]

\* ---- one frame: the tracks after it, the next unused identity, and what is reported about it
Step(cfg, tracks, next, f) ==
   LET hyp == TLCEval(Hypotheses(f, tracks))
       K(t) == Fits(cfg, t.l, t.r)
       kept == TLCEval(Filter(hyp, K))
       L == TLCEval(Fresh(cfg, f, 1, hyp))
       R == TLCEval(Fresh(cfg, f, 2, hyp))
       new == TLCEval(Pairs(cfg, f, L, R))
       born == [k \in 1..Len(new) |-> [id |-> next + k - 1, l |-> <<new[k][1][1], new[k][1][2]>>, r |-> <<new[k][2][1], new[k][2][2]>>, lc |-> new[k][1][3], rc |-> new[k][2][3]]]
       all == kept \o born
   IN [tracks |-> all, next |-> next + Len(born), kept |-> Len(kept), hyp |-> Len(hyp),
       stats |-> [max |-> next + Len(born) - 1, longest |-> IF kept = <<>> THEN -1 ELSE kept[1].id,
                  tkp |-> <<Len(hyp), Len(hyp)>>, ekp |-> <<Len(Extracted(cfg, f, 1)), Len(Extracted(cfg, f, 2))>>, fkp |-> <<Len(L), Len(R)>>,
                  tm |-> Len(kept), nm |-> Len(born), tot |-> Len(all), ids |-> [i \in 1..Len(all) |-> all[i].id]]]
=============================================================================
