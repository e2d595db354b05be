------------------------------ MODULE Cloud2MC ------------------------------
(***************************************************************************)
(* Design model of the field editor: small clouds with arbitrary padding   *)
(* and field order, every sequence of up to MaxOps edits.  A field written *)
(* by the user keeps its value (ghost variable val) whatever edits follow. *)
(* The layout rule is the one /repo uses: new fields go after everything   *)
(* a point already holds.                                                  *)
(***************************************************************************)
EXTENDS Cloud2, TLC
CONSTANTS MaxOps
VARIABLES c, val, ops
vars == <<c, val, ops>>
Names == {"a", "b", "n"}
\* one-byte (2) and two-byte (4) fields
Base(fs, ps, np) == [f |-> fs, ps |-> ps, rs |-> ps * np, nd |-> ps * np, w |-> np, h |-> 1, be |-> FALSE, dn |-> 1,
                     stamp |-> 0, frame |-> "", seq |-> 0, p |-> [i \in 1..np |-> [k \in 1..(2 * ps) |-> (i + k) % 3]]]
Inits == { Base(<< <<"a", oa, ta, 1>>, <<"b", ob, tb, 1>> >>, ps, np) :
             oa \in 0..2, ob \in 0..3, ta \in {2, 4}, tb \in {2, 4}, ps \in 2..5, np \in 0..2 }
ReadAll(x) == [k \in DOMAIN x.f |-> [i \in DOMAIN x.p |-> FBytes(x, i, x.f[k])]]
Init == c \in {x \in Inits : Layout(x)} /\ val = ReadAll(c) /\ ops = 0
Pad(bytes, n) == bytes \o [i \in 1..(2 * n) |-> 7]
Add(n, t) == /\ c' = [c EXCEPT !.f = Append(@, <<n, c.ps, t, 1>>), !.ps = @ + TypeSize(t), !.rs = (c.ps + TypeSize(t)) * c.w,
                         !.nd = (c.ps + TypeSize(t)) * c.w * c.h, !.p = [i \in DOMAIN c.p |-> Pad(c.p[i], TypeSize(t))]]
             /\ val' = Append(val, [i \in DOMAIN c.p |-> [k \in 1..(2 * TypeSize(t)) |-> 7]])
Write(k, i, v) == LET x == c.f[k] n == TypeSize(FType(x)) IN
             /\ c' = [c EXCEPT !.p[i] = [b \in 1..(2 * c.ps) |-> IF b > 2 * FOff(x) /\ b <= 2 * (FOff(x) + n) THEN v ELSE @[b]]]
             /\ val' = [val EXCEPT ![k][i] = [b \in 1..(2 * n) |-> v]]
Rename(from, to) == HasField(c, from) /\ c' = Renamed(c, from, to) /\ UNCHANGED val
Drop(i) == /\ c.h = 1 /\ c.w > 0
           /\ LET keep == SelectIdx(Len(c.p), LAMBDA j : j # i) IN
              /\ c' = [c EXCEPT !.w = @ - 1, !.rs = c.ps * (c.w - 1), !.nd = c.ps * (c.w - 1), !.p = [k \in DOMAIN keep |-> c.p[keep[k]]]]
              /\ val' = [k \in DOMAIN val |-> [m \in DOMAIN keep |-> val[k][keep[m]]]]
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E n \in Names, t \in {2, 4} : Len(c.f) < 4 /\ Add(n, t)
           \/ \E k \in DOMAIN c.f, i \in DOMAIN c.p, v \in {0, 5} : Write(k, i, v)
           \/ \E from, to \in Names : Rename(from, to)
           \/ \E i \in DOMAIN c.p : Drop(i)
Spec == Init /\ [][Next]_vars
LayoutOk == Layout(c)
ReadsBack == ReadAll(c) = val
AddSound == [][\A n \in Names, t \in {2, 4} : (Len(c'.f) = Len(c.f) + 1) => AddedKeeps(c, c')]_vars
=============================================================================
