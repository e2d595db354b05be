------------------------------- MODULE Cloud2 -------------------------------
(***************************************************************************)
(* Binary point clouds (a table of fields and, per point, a block of       *)
(* bytes) and the operations on them.  A cloud is a record                 *)
(*   f  : sequence of fields <<name, offset, type, count>>                 *)
(*   ps : bytes per point, rs : bytes per row, nd : bytes of data          *)
(*   w, h : width and height                                               *)
(*   be, dn, stamp, frame, seq : endianness, density, header               *)
(*   p  : the points, each the sequence (string) of its bytes in hex       *)
(* The operations are given as relations between the cloud before (c) and  *)
(* after (d): what must be the same and what must have changed.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* INT8 UINT8 INT16 UINT16 INT32 UINT32 FLOAT32 FLOAT64
TypeSize(t) == CASE t \in {1, 2} -> 1 [] t \in {3, 4} -> 2 [] t \in {5, 6, 7} -> 4 [] t = 8 -> 8 [] OTHER -> 0
FName(x) == x[1]
FOff(x) == x[2]
FType(x) == x[3]
FCount(x) == x[4]
FEnd(x) == FOff(x) + TypeSize(FType(x)) * FCount(x)
Slice(bytes, off, n) == SubSeq(bytes, 2 * off + 1, 2 * (off + n))
FBytes(c, i, x) == Slice(c.p[i], FOff(x), TypeSize(FType(x)) * FCount(x))
HasField(c, n) == \E i \in DOMAIN c.f : FName(c.f[i]) = n
\* names may repeat: the first field of that name is meant
FIndex(c, n) == CHOOSE i \in DOMAIN c.f : FName(c.f[i]) = n /\ \A j \in 1..(i - 1) : FName(c.f[j]) # n

\* the layout is consistent
Layout(c) ==
   /\ Len(c.p) = c.w * c.h
   /\ c.rs = c.ps * c.w
   /\ c.nd = c.rs * c.h
   /\ \A i \in DOMAIN c.f : FOff(c.f[i]) >= 0 /\ FEnd(c.f[i]) <= c.ps
   /\ \A i, j \in DOMAIN c.f : i < j => FEnd(c.f[i]) <= FOff(c.f[j]) \/ FEnd(c.f[j]) <= FOff(c.f[i])
   /\ \A i \in DOMAIN c.p : Len(c.p[i]) = 2 * c.ps

Header(c) == <<c.stamp, c.frame, c.seq>>
Shape(c) == <<c.w, c.h, c.ps, c.rs, c.nd>>
\* every byte of every field whose index is not in X is the same in both
SameFields(c, d, X) == /\ Len(c.p) = Len(d.p)
                       /\ \A k \in DOMAIN c.f \ X : \A i \in DOMAIN c.p : FBytes(c, i, c.f[k]) = FBytes(d, i, d.f[k])
\* every byte outside field x is the same in both
SameOutside(c, d, x) == \A i \in DOMAIN c.p :
      /\ Slice(c.p[i], 0, FOff(x)) = Slice(d.p[i], 0, FOff(x))
      /\ Slice(c.p[i], FEnd(x), c.ps - FEnd(x)) = Slice(d.p[i], FEnd(x), c.ps - FEnd(x))

AddedNames(c, d, names, t, k) ==
   /\ Len(d.f) = Len(c.f) + Len(names)
   /\ SubSeq(d.f, 1, Len(c.f)) = c.f
   /\ \A i \in DOMAIN names : LET x == d.f[Len(c.f) + i] IN FName(x) = names[i] /\ FType(x) = t /\ FCount(x) = k
AddedKeeps(c, d) == /\ Header(c) = Header(d) /\ c.w = d.w /\ c.h = d.h /\ c.be = d.be /\ c.dn = d.dn
                    /\ SameFields(c, d, {})
Renamed(c, from, to) == [c EXCEPT !.f[FIndex(c, from)] = <<to, @[2], @[3], @[4]>>]
Retyped(c, n, t) == [c EXCEPT !.f[FIndex(c, n)] = <<@[1], @[2], t, @[4]>>].f
ResizedTo(c, d, w, h) ==
   /\ d.w = w /\ d.h = h /\ d.f = c.f /\ d.ps = c.ps /\ Header(d) = Header(c)
   /\ \A i \in 1..(IF Len(c.p) < w * h THEN Len(c.p) ELSE w * h) : d.p[i] = c.p[i]
\* the points at the positions in the increasing sequence keep, and nothing else
Kept(c, d, keep) == /\ Len(d.p) = Len(keep) /\ \A k \in DOMAIN keep : d.p[k] = c.p[keep[k]]
SelectIdx(n, P(_)) == SelectSeq([i \in 1..n |-> i], P)
=============================================================================
