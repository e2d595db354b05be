----------------------------- MODULE Cloud2Trace ----------------------------
(***************************************************************************)
(* P06, P07, P08, P09: recorded operations on binary clouds.  cur is the   *)
(* cloud under edit.                                                       *)
(***************************************************************************)
EXTENDS Cloud2, Cloud, TraceBase
VARIABLE cur
vars == <<l, cur>>
Empty == [f |-> <<>>, ps |-> 0, rs |-> 0, nd |-> 0, w |-> 0, h |-> 0, be |-> FALSE, dn |-> 0, stamp |-> "0", frame |-> "", seq |-> 0, p |-> <<>>]
Init == l = 1 /\ cur = Empty
Keep == UNCHANGED cur

\* a number stored in a field of type t (float types round to nearest, integer types truncate towards zero)
Trunc(v) == RTrunc(v)
Stored(t, v, out) ==
   IF t = 8 THEN RLeq(RAbs(RSub(out, v)), RMul("1e-15", RAbs(v)))
   ELSE IF t = 7 THEN RLeq(RAbs(RSub(out, v)), RAdd("1e-44", RMul("6e-8", RAbs(v))))
   ELSE LET d == RMul("1e-14", RAdd(1, RAbs(v))) IN REq(out, Trunc(RSub(v, d))) \/ REq(out, Trunc(RAdd(v, d))) \/ REq(out, Trunc(v))
TypeOf(n) == CASE n = "int8" -> 1 [] n = "uint8" -> 2 [] n = "int16" -> 3 [] n = "uint16" -> 4 [] n = "int32" -> 5 [] n = "uint32" -> 6 [] n = "float" -> 7 [] n = "double" -> 8
TypeName(t) == <<"INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64">>[t]

\* ---- P06: editing
Start == IsEvent("cloud") /\ Ck("generated cloud is well formed", Layout(E.out)) /\ cur' = E.out
AddFields == IsEvent("addfields") /\ Ck("accepted", ~E.exc)
   /\ Ck("source untouched", E.src = cur)
   /\ Ck("consistent layout", Layout(E.out))
   /\ Ck("new fields as requested, existing ones as they were", AddedNames(cur, E.out, E.names, E.type, E.count))
   /\ Ck("everything else kept", AddedKeeps(cur, E.out))
   /\ cur' = E.out
XYZ3(i) == << E.x[i], E.y[i], E.z[i] >>
AddUnit == IsEvent("addunit") /\ Ck("source untouched", E.src = cur) /\
   IF ~(HasField(cur, "x") /\ HasField(cur, "y") /\ HasField(cur, "z")) \/ (\E i \in DOMAIN E.x : \A k \in 1..3 : REq(XYZ3(i)[k], 0))
   THEN Ck("refused without coordinates or direction", E.exc) /\ Keep
   ELSE /\ Ck("accepted", ~E.exc)
        /\ Ck("consistent layout", Layout(E.out))
        /\ Ck("three float fields appended", AddedNames(cur, E.out, <<"ux", "uy", "uz">>, 7, 1))
        /\ Ck("everything else kept", AddedKeeps(cur, E.out))
        /\ Ck("unit vector towards the point", Len(E.u) = Len(E.x) /\ \A i \in DOMAIN E.u :
              VNearAbs(E.u[i], VScale(RDiv(1, Norm(XYZ3(i))), XYZ3(i)), "1e-6"))
        /\ cur' = E.out
Rename == IsEvent("rename") /\
   IF HasField(cur, E.from) THEN Ck("accepted", ~E.exc) /\ Ck("exactly one name changed", E.out = Renamed(cur, E.from, E.to)) /\ cur' = E.out
   ELSE Ck("absent field refused", E.exc) /\ Ck("refusal leaves the cloud alone", E.out = cur) /\ Keep
Cast == IsEvent("cast") /\
   IF ~HasField(cur, E.name) \/ TypeSize(FType(cur.f[FIndex(cur, E.name)])) # TypeSize(E.type)
   THEN Ck("refused: absent field or different width", E.exc) /\ Ck("refusal leaves the cloud alone", E.out = cur) /\ Keep
   ELSE LET x == cur.f[FIndex(cur, E.name)] IN
        /\ Ck("accepted", ~E.exc)
        /\ Ck("only the type of that field changes", E.out.f = Retyped(cur, E.name, E.type))
        /\ Ck("header and shape kept", Header(E.out) = Header(cur) /\ Shape(E.out) = Shape(cur) /\ E.out.be = cur.be /\ E.out.dn = cur.dn)
        /\ Ck("all other bytes kept", SameOutside(cur, E.out, x))
        /\ IF FType(x) = E.type THEN Ck("nothing to cast: unchanged", E.out = cur)
           ELSE Ck("each value converted once", Len(E.now) = Len(E.was) /\ \A i \in DOMAIN E.was : Stored(E.type, RMul(E.was[i], E.scale), E.now[i]))
        /\ cur' = E.out
Resize == IsEvent("resize") /\ Ck("accepted", ~E.exc)
   /\ Ck("resized, data kept", ResizedTo(cur, E.out, E.w, E.h)) /\ Ck("consistent layout", Layout(E.out)) /\ cur' = E.out
Query == IsEvent("query") /\ Keep
   /\ Ck("reading changes nothing", E.out = cur)
   /\ Ck("field presence", E.has = HasField(cur, E.name) /\ E.exc = ~HasField(cur, E.name))
   /\ (HasField(cur, E.name) => Ck("the field of that name", E.got = cur.f[FIndex(cur, E.name)]))
   /\ Ck("sizes", E.np = cur.w * cur.h /\ E.nb = cur.nd /\ E.rs = cur.rs /\ E.empty = (cur.w * cur.h = 0))

\* ---- P07: typed access, scaling, statistics
Get == IsEvent("get") /\ Keep /\ Ck("accepted", ~E.exc)
   /\ Ck("the value of each point, converted", Len(E.a) = Len(E.vals) /\ \A i \in DOMAIN E.vals : Stored(TypeOf(E.as), E.vals[i], E.a[i]))
   /\ Ck("same with the source type given", E.b = E.a)
   /\ (Len(E.vals) > 0 => Ck("single access", E.last = E.a[Len(E.a)]))
Mismatch == IsEvent("mismatch") /\ Keep /\ Ck("wrong source type refused", E.exc)
SetV == IsEvent("set") /\ Keep /\ Ck("accepted", ~E.exc)
   /\ Ck("the value written", Stored(FType(E.field), E.v, E.now))
   /\ Ck("metadata kept", [E.out EXCEPT !.p = <<>>] = [E.src EXCEPT !.p = <<>>])
   /\ Ck("no other byte changed", /\ \A i \in DOMAIN E.src.p : i # E.i + 1 => E.out.p[i] = E.src.p[i]
                                  /\ LET x == <<FName(E.field), FOff(E.field), FType(E.field), 1>> IN SameOutside(E.src, E.out, x))
Scale == IsEvent("scale") /\ Keep /\
   IF ~HasField(E.src, E.name) THEN Ck("absent field refused", E.exc) /\ Ck("refusal leaves the cloud alone", E.out = E.src)
   ELSE /\ Ck("accepted", ~E.exc)
        /\ LET x == E.src.f[FIndex(E.src, E.name)] IN
           /\ Ck("each value multiplied once", Len(E.now) = Len(E.was) /\ \A i \in DOMAIN E.was : Stored(FType(x), RMul(E.was[i], E.scale), E.now[i]))
           /\ Ck("metadata kept", [E.out EXCEPT !.p = <<>>] = [E.src EXCEPT !.p = <<>>])
           /\ Ck("all other bytes kept", SameOutside(E.src, E.out, x))
RMinS(s) == LET F[k \in 1..Len(s)] == IF k = 1 THEN RReal(s[1]) ELSE RMin(F[k-1], s[k]) IN F[Len(s)]
RMaxS(s) == LET F[k \in 1..Len(s)] == IF k = 1 THEN RReal(s[1]) ELSE RMax(F[k-1], s[k]) IN F[Len(s)]
MeanOf(s) == RDiv(RSum(s), Len(s))
VarOf(s, m) == RDiv(RSum([i \in DOMAIN s |-> RMul(RSub(s[i], m), RSub(s[i], m))]), Len(s))
AbsSum(s) == RSum([i \in DOMAIN s |-> RAbs(s[i])])
Near(out, v, int, f32, scale) == IF int THEN RLt(RAbs(RSub(out, Trunc(v))), 1) \/ RLeq(RAbs(RSub(out, v)), "1e-9")
   ELSE RLeq(RAbs(RSub(out, v)), RAdd("1e-44", RMul(IF f32 THEN "1e-6" ELSE "1e-12", scale)))
Stats == IsEvent("stats") /\ Keep /\ Ck("accepted", ~E.exc) /\
   LET s == E.vals  m == MeanOf(s)  a == AbsSum(s)  v == VarOf(s, m)  vm == VarOf(s, E.m)
       \* the mean is taken from the sum in the type asked for
       q == RAdd(RMaxS([i \in DOMAIN s |-> RMul(s[i], s[i])]), RMul(E.m, E.m))
       N(out, w, sc) == Near(out, w, E.int, E.f32, sc)
   IN /\ Ck("minimum", N(E.min, RMinS(s), RAbs(RMinS(s)))) /\ Ck("maximum", N(E.max, RMaxS(s), RAbs(RMaxS(s))))
      /\ Ck("sum", N(E.sum, RSum(s), a)) /\ Ck("mean", N(E.mean, m, a))
      /\ Ck("variance", N(E.var, v, q)) /\ Ck("variance about a given mean", N(E.varm, vm, q))
      /\ Ck("standard deviation", IF E.int THEN N(E.sd, RSqrt(v), 1) ELSE RLeq(RAbs(RSub(RMul(E.sd, E.sd), v)), RMul(IF E.f32 THEN "1e-6" ELSE "1e-12", RAdd("1e-30", q))))
      /\ Ck("standard deviation about a given mean", IF E.int THEN N(E.sdm, RSqrt(vm), 1) ELSE RLeq(RAbs(RSub(RMul(E.sdm, E.sdm), vm)), RMul(IF E.f32 THEN "1e-6" ELSE "1e-12", RAdd("1e-30", q))))
EmptyStats == IsEvent("emptystats") /\ Keep /\ Ck("no extreme value of an empty cloud: refused", E.exc)
Summary == IsEvent("summary") /\ Keep /\ Ck("accepted", ~E.exc) /\
   LET s == E.vals m == MeanOf(s) q == RMaxS([i \in DOMAIN s |-> RMul(s[i], s[i])])
       ok(o) == /\ REq(o[1], RMinS(s)) /\ REq(o[2], RMaxS(s)) /\ RLeq(RAbs(RSub(o[3], m)), RMul("1e-12", RAdd("1e-30", AbsSum(s))))
                /\ RLeq(RAbs(RSub(o[4], VarOf(s, m))), RMul("1e-12", RAdd("1e-30", q))) /\ REq(o[5], Len(s))
   IN /\ Ck("summary of the field", E.label = E.name /\ ok(E.st))
      /\ Ck("one summary per field, in order", E.labels = E.names /\ ok(E.ar))
      /\ Ck("printed extremes", RNear(E.mins, RMinS(s), "1e-6") /\ RNear(E.maxs, RMaxS(s), "1e-6"))
Dirs == IsEvent("dirs") /\ Keep /\ Ck("accepted", ~E.exc) /\
   LET tol == IF E.dbl THEN "1e-9" ELSE "1e-5" IN
   /\ Ck("one per point", Len(E.u) = Len(E.x) /\ Len(E.p) = Len(E.x))
   /\ \A i \in DOMAIN E.x : LET p == XYZ3(i) n == Norm(p) r == E.p[i][1] a == E.p[i][2] el == E.p[i][3] IN
      /\ Ck("unit vector", VNearAbs(E.u[i], VScale(RDiv(1, n), p), tol))
      /\ Ck("polar coordinates", VNearAbs(<< RMul(r, RMul(RSin(el), RCos(a))), RMul(r, RMul(RSin(el), RSin(a))), RMul(r, RCos(el)) >>, p,
                                          RMul(RAdd(1, n), IF E.dbl THEN "1e-6" ELSE "2e-3")))
Width == IsEvent("width") /\ Keep
   /\ Ck("width of a type", E.b8 = (TypeSize(E.type) = 1) /\ E.b16 = (TypeSize(E.type) = 2) /\ E.b32 = (TypeSize(E.type) = 4) /\ E.b64 = (TypeSize(E.type) = 8))
   /\ Ck("same width", E.same = (TypeSize(E.type) = TypeSize(E.other))) /\ Ck("name", E.name = TypeName(E.type))
Normals == IsEvent("normals") /\ Keep /\ Ck("accepted", ~E.exc) /\
   LET dev(i) == RAbs(RSub(Norm(XYZ3(i)), 1))
       sure == {i \in DOMAIN E.x : RLt(RAdd(E.thr, "1e-6"), dev(i))}
       may == {i \in DOMAIN E.x : RLt(RSub(E.thr, "1e-6"), dev(i))}
   IN Ck("number of normals that are not unit length", Cardinality(sure) <= E.out /\ E.out <= Cardinality(may))

\* ---- P08: filter by value
FilterMax == IsEvent("filtermax") /\ Keep /\
   IF ~HasField(E.src, E.name) THEN Ck("absent field refused", E.exc)
   ELSE LET border == {i \in DOMAIN E.vals : ~REq(E.vals[i], E.max) /\ RLeq(RAbs(RSub(E.vals[i], E.max)), RMul("1e-6", RAbs(E.max)))}
            keep == SelectIdx(Len(E.vals), LAMBDA i : RLeq(E.vals[i], E.max))
            got == {k \in DOMAIN E.vals : \E j \in DOMAIN E.out.p : E.out.p[j] = E.src.p[k]}
        IN /\ Ck("accepted", ~E.exc)
           /\ Ck("same fields, header and endianness", E.out.f = E.src.f /\ Header(E.out) = Header(E.src) /\ E.out.be = E.src.be /\ E.out.ps = E.src.ps)
           /\ Ck("consistent layout", Layout(E.out))
           /\ Ck("a single row", E.out.h = 1)
           /\ (border = {} => Ck("exactly the points up to the maximum, in order, bytes unchanged", Kept(E.src, E.out, keep)))

\* ---- P09: de-skewing.  The motion over dt is (rv, tr); at time s it is the fraction s/dt of both.
MotionAt(f) == MkT(RotVec(FALSE, VScale(f, E.rv)), VScale(f, E.tr))
Still == \A i \in 1..3 : REq(E.rv[i], 0) /\ REq(E.tr[i], 0)
DeskewPoint(i) ==
   LET fn == RDiv(RMul(E.delta, "1e-6"), E.dt)
       fp == RDiv(E.t[i], E.dt)
       p == << E.x[i], E.y[i], E.z[i] >>
       o == << E.ox[i], E.oy[i], E.oz[i] >>
       w == IF Still THEN p ELSE Act(TMul(TInv(MotionAt(fn)), MotionAt(fp)), p)
       s == RAdd(1, RAdd(RAdd(VMaxAbs(p), VMaxAbs(E.tr)), VMaxAbs(w)))
   IN /\ Ck("moved by the motion between its own time and the target", VNearAbs(o, w, RMul(IF E.f32 THEN "5e-7" ELSE "1e-8", s)))
Deskew == IsEvent("deskew") /\ Keep /\ Ck("input untouched", E.kept) /\
   LET fs == {"x", "y", "z", "t"}
       X == {k \in DOMAIN E.src.f : FName(E.src.f[k]) \in fs}
   IN IF ~Still /\ (RLeq(E.dt, 0) \/ ~HasField(E.src, "t")) THEN Ck("refused: no duration or no time field", E.exc)
      ELSE /\ Ck("accepted", ~E.exc)
           /\ Ck("stamped with the target time", E.out.stamp = E.new)
           /\ Ck("rest of the header, fields and shape kept", E.out.f = E.src.f /\ Shape(E.out) = Shape(E.src) /\ E.out.frame = E.src.frame /\ E.out.seq = E.src.seq
                 /\ E.out.be = E.src.be /\ E.out.dn = E.src.dn)
           /\ Ck("other fields kept", SameFields(E.src, E.out, X))
           /\ \A i \in DOMAIN E.x : DeskewPoint(i)
           /\ Ck("every point carries the target time", \A i \in DOMAIN E.ot : REq(E.ot[i], 0))
End == IsEvent("end") /\ Keep
Next == \/ Start \/ AddFields \/ AddUnit \/ Rename \/ Cast \/ Resize \/ Query
        \/ Get \/ Mismatch \/ SetV \/ Scale \/ Stats \/ EmptyStats \/ Summary \/ Dirs \/ Width \/ Normals
        \/ FilterMax \/ Deskew \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
