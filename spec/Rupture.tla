------------------------------ MODULE Rupture ------------------------------
(***************************************************************************)
(* Finite ruptures: reading rupture files, classifying them, writing them, *)
(* building them from arrays, and what their geometry amounts to.          *)
(*                                                                         *)
(* Points are <<x, y, z>> on an integer lattice: east, north, down.  A     *)
(* polygon is a closed sequence of points, tops first.                     *)
(*   rup   [cls, polys, ref, dx]: the rupture in hand (cls "none" at first)*)
(*   file  what is on disk: nothing, GeoJSON, or text lines                *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets
CONSTANTS Texts, Jsons, Builds, Sites, Writing

NoRup == [cls |-> "none", polys |-> <<>>, ref |-> <<>>, dx |-> 0]
NoFile == [kind |-> "none"]
R(ok, v, exc) == [ok |-> ok, v |-> v, exc |-> exc]
One(st, r) == { [st |-> st, res |-> r] }
Good == R(TRUE, 0, "")

Valid(p) == /\ Len(p) % 2 = 1 /\ Len(p) >= 5
            /\ p[1] = p[Len(p)]
            /\ \A j \in 1..Pairs(p) : p[j][3] < p[Len(p) - j][3]
Rotate(p, k) == [j \in 1..Len(p) |-> p[((j - 1 + k) % (Len(p) - 1)) + 1]]
Rotations(p) == { k \in 0..(Len(p) - 2) : Valid(Rotate(p, k)) }
Fixable(p) == Len(p) >= 5 /\ p[1] = p[Len(p)] /\ Rotations(p) # {}
Fix(p) == IF Valid(p) THEN p ELSE Rotate(p, CHOOSE k \in Rotations(p) : \A m \in Rotations(p) : k <= m)

(* ---- classification ---- *)
Classes(polys) ==
  LET qs == QuadsOf(polys)
      all == { qs[k] : k \in 1..Len(qs) }
  IN IF \E q \in all : ~Level(q) \/ Flatness(q) = "twisted" THEN {"edge"}
     ELSE IF \E q \in all : Flatness(q) = "between" THEN {"edge", "quad"} ELSE {"quad"}

(* ---- what is in a file ---- *)
RECURSIVE Segments(_, _, _)
Segments(ls, cur, k) ==
  IF k > Len(ls) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF ls[k].k = "pt" THEN Segments(ls, Append(cur, ls[k].p), k + 1)
  ELSE IF ls[k].k = "end" /\ cur # <<>> THEN <<cur>> \o Segments(ls, <<>>, k + 1)
  ELSE Segments(ls, cur, k + 1)
RefOf(ls) == LET t == SelectSeq(ls, LAMBDA l : l.k = "ref") IN Flat([k \in 1..Len(t) |-> t[k].w], 1)
TextOK(f, newf) == LET seg == Segments(f.lines, <<>>, 1)
                   IN /\ ~\E k \in 1..Len(f.lines) : f.lines[k].k = "bad"
                      /\ ~(newf /\ f.fmt = "comma")
                      /\ seg # <<>>
                      /\ \A k \in 1..Len(seg) : Fixable(seg[k])
TextPolys(f) == LET seg == Segments(f.lines, <<>>, 1) IN [k \in 1..Len(seg) |-> Fix(seg[k])]
JsonOK(f) == f.bad = "" /\ (f.typ = "point" \/ (f.polys # <<>> /\ \A k \in 1..Len(f.polys) : Valid(f.polys[k])))
Rup(cls, polys, ref, dx) == [cls |-> cls, polys |-> polys, ref |-> ref, dx |-> IF cls = "edge" THEN dx ELSE 0]
Bad == {"ValueError", "OSError"}
Load(st, c) ==
  LET f == st.file
      new == CASE f.kind = "text" /\ TextOK(f, c.newf) ->
                    { Rup(k, TextPolys(f), RefOf(f.lines), c.dx) : k \in Classes(TextPolys(f)) }
               [] f.kind = "json" /\ JsonOK(f) ->
                    IF f.typ = "point" THEN { Rup("point", <<>>, f.ref, 0) }
                    ELSE IF c.how = "dict" THEN { Rup(f.typ, f.polys, f.ref, f.dx) }
                    ELSE { Rup(k, f.polys, f.ref, c.dx) : k \in Classes(f.polys) }
               [] OTHER -> {}
  IN IF new # {} THEN { [st |-> [st EXCEPT !.rup = r], res |-> Good] : r \in new }
     ELSE { [st |-> st, res |-> R(FALSE, 0, x)] : x \in Bad \cup (IF c.how = "file" THEN {} ELSE {"any"}) }

TextOf(ref, qs) == <<[k |-> "ref", w |-> ref]>>
  \o Flat([k \in 1..Len(qs) |-> [m \in 1..6 |-> IF m = 6 THEN [k |-> "end"] ELSE [k |-> "pt", p |-> qs[k][IF m = 5 THEN 1 ELSE m]]]], 1)

(* ---- building ---- *)
SortedGroups(g) == { g[k] : k \in 1..Len(g) }
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o InOrder(S \ {m})
Members(g, x) == SelectSeq([k \in 1..Len(g) |-> k], LAMBDA k : g[k] = x)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Pick(s, ix) == [k \in 1..Len(ix) |-> s[ix[k]]]
PolyOfQuads(qs) == <<qs[1][1]>> \o [k \in 1..Len(qs) |-> qs[k][2]] \o Rev([k \in 1..Len(qs) |-> qs[k][3]]) \o <<qs[1][4], qs[1][1]>>
PolyOfEdges(t, b) == t \o Rev(b) \o <<t[1]>>
PolysOfQuads(qs, g) == LET o == InOrder(SortedGroups(g)) IN [k \in 1..Len(o) |-> PolyOfQuads(Pick(qs, Members(g, o[k])))]
(* a rectangle hanging from the top edge a-b, h to the right of direction s and v down *)
Hang(a, b, s, h, v) ==
  LET n == CHOOSE m \in 1..100 : m * m = s[1] * s[1] + s[2] * s[2]
      o == <<(s[2] * h) \div n, -((s[1] * h) \div n), v>>
      add(p) == <<p[1] + o[1], p[2] + o[2], p[3] + o[3]>>
  IN <<a, b, add(b), add(a)>>
Each(n) == [k \in 1..n |-> k - 1]
Build(st, c) ==
  IF c.bad # "" THEN One(st, R(FALSE, 0, c.bad))
  ELSE LET r == CASE c.how = "vertices" -> Rup("quad", PolysOfQuads(c.quads, IF c.groups = <<>> THEN Each(Len(c.quads)) ELSE c.groups), c.ref, 0)
                  [] c.how = "arrays" ->
                       LET g == IF c.groups = <<>> THEN [k \in 1..Len(c.top) |-> 0] ELSE c.groups
                           o == InOrder(SortedGroups(g))
                       IN Rup("edge", [k \in 1..Len(o) |-> PolyOfEdges(Pick(c.top, Members(g, o[k])), Pick(c.bot, Members(g, o[k])))], c.ref, c.dx)
                  [] c.how \in {"trace", "orient"} ->
                       LET qs == [k \in 1..Len(c.tops) |-> Hang(c.tops[k].a, c.tops[k].b, c.tops[k].s, c.tops[k].h, c.tops[k].v)]
                           g == IF c.groups = <<>> THEN Each(Len(qs)) ELSE c.groups
                       IN Rup("quad", PolysOfQuads(qs, g), c.ref, 0)
                  [] c.how = "point" -> Rup("point", <<>>, c.ref, 0)
       IN One([st EXCEPT !.rup = r], Good)

(* ---- the depth of the rupture below a site ---- *)
(* 100 times the depth of the plane of q below s: the down-dip fraction of the way *)
PlaneDepth(q, s) ==
  LET b == Sub(q[2], q[1])
      far(p) == (p[1] - q[1][1]) * b[2] - (p[2] - q[1][2]) * b[1]
      sg == IF far(q[4]) < 0 THEN -1 ELSE 1
  IN (sg * 100 * (q[1][3] * far(q[4]) + (q[4][3] - q[1][3]) * far(s))) \div (sg * far(q[4]))
DepthOK(rup, s, v) ==
  LET qs == QuadsOf(rup.polys)
      ins == { k \in 1..Len(qs) : In(qs[k], s) = 1 }
      rim == { k \in 1..Len(qs) : In(qs[k], s) = 0 }
      ok(K) == \E k \in K : IF Right(qs[k]) = 0 THEN TRUE ELSE Near(v, PlaneDepth(qs[k], s), 12)
  IN IF ins # {} THEN ok(ins \cup rim) ELSE IF rim # {} THEN v = 9999999 \/ ok(rim) ELSE v = 9999999

(* what cannot be asked for in this state *)
Idle(st, c) == \/ c.op = "load" /\ st.file.kind = "none"
               \/ c.op = "load" /\ st.file.kind = "text" /\ (c.how # "file" \/ (st.file.fmt = "new" /\ ~c.newf) \/ (st.file.fmt = "old" /\ c.newf))
               \/ c.op = "load" /\ st.file.kind = "json" /\ c.how # "file" /\ (st.file.bad = "cut" \/ (c.how = "dict" /\ st.file.typ = "hand"))
               \/ c.op \in {"write", "redict"} /\ st.rup.cls = "none"
               \/ c.op \in {"writetext", "depthat"} /\ st.rup.cls # "quad"
Outcomes(st, c) == IF Idle(st, c) THEN One(st, R(FALSE, 0, "idle")) ELSE
  CASE c.op = "text" -> One([st EXCEPT !.file = [kind |-> "text", fmt |-> c.fmt, lines |-> c.lines]], Good)
    [] c.op = "json" -> One([st EXCEPT !.file = [kind |-> "json", typ |-> c.typ, polys |-> c.polys, ref |-> c.ref, dx |-> 0, bad |-> c.bad]], Good)
    [] c.op = "load" -> Load(st, c)
    [] c.op = "build" -> Build(st, c)
    [] c.op = "write" -> One([st EXCEPT !.file = [kind |-> "json", typ |-> st.rup.cls, polys |-> st.rup.polys, ref |-> st.rup.ref,
                                                   dx |-> st.rup.dx, bad |-> ""]], Good)
    [] c.op = "redict" -> One([st EXCEPT !.rup = Rup(@.cls, @.polys, @.ref, @.dx)], Good)
    [] c.op = "writetext" -> { [st |-> [st EXCEPT !.file = [kind |-> "text", fmt |-> "old", lines |-> TextOf(st.rup.ref, qs)]], res |-> Good] :
                               qs \in Choices(QuadsOf(st.rup.polys)) }
    [] c.op = "depthat" -> One(st, R(TRUE, 0, ""))

(* ---- measurements, compared within the curvature of the earth ---- *)
TopLen(q) == Hundredths(Sq(Sub(q[2], q[1])))
FlatLen(q) == LET d == Sub(q[2], q[1]) IN Hundredths(d[1]*d[1] + d[2]*d[2])
QuadArea(q) == Hundredths(Sq(Normal(q)))
Tri(a, b, c) == Hundredths(Sq(Cross(Sub(b, a), Sub(c, a)))) \div 2
EdgeArea(q) == Tri(q[1], q[2], q[3]) + Tri(q[1], q[3], q[4])
WidthOf(q) == (100 * QuadArea(q)) \div TopLen(q)
Each2(qs, F(_)) == [k \in 1..Len(qs) |-> F(qs[k])]
Close(a, b) == Near(a, b, 3 + (IF b < 0 THEN 0 ELSE b) \div 60)
SameSeq(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k])
Tops(qs) == LET S == { qs[k][m][3] : k \in 1..Len(qs), m \in 1..2 } IN CHOOSE x \in S : \A y \in S : x <= y
TopOf(rup) == Tops(QuadsOf(rup.polys))
(* strike: the direction of the sum of the (oriented) top edges *)
StrikeOK(qs, v) ==
  LET dx == Sum([k \in 1..Len(qs) |-> qs[k][2][1] - qs[k][1][1]])
      dy == Sum([k \in 1..Len(qs) |-> qs[k][2][2] - qs[k][1][2]])
      n == Sqrt(dx*dx + dy*dy) + 1
  IN n < 4 \/ (Near(v[1] * dy, v[2] * dx, 25 * n) /\ v[1] * dx + v[2] * dy > 0)
CosDip(q) == (100000 * Right(q)) \div Hundredths(Sq(Normal(q)))
Cosines(qs) == { LET x == CosDip(qs[k]) IN IF x < 0 THEN -x ELSE x : k \in 1..Len(qs) }
DipOK(qs, v) == /\ v[1] >= -5
                /\ \E x \in Cosines(qs) : v[2] >= x - 60
                /\ \E x \in Cosines(qs) : v[2] <= x + 60
Loop(qs) == LET n == Len(qs)
            IN <<qs[1][1]>> \o [k \in 1..n |-> qs[k][2]] \o Rev([k \in 1..n |-> qs[k][3]]) \o <<qs[1][4], qs[1][1]>>
(* the outline of a group is only meaningful when its quadrilaterals were not turned one by one *)
Straight(qs) == Len(qs) = 1 \/ \A k \in 1..Len(qs) : Right(qs[k]) > 0
Views(rup, v) ==
  LET qs == QuadsOf(rup.polys)
      polyquads(k) == QuadsOfPoly(rup.polys[k])
      np == Len(rup.polys)
  IN CASE rup.cls = "none" -> TRUE
       [] rup.cls = "point" -> v.quads = "none" /\ v.here
       [] rup.cls = "quad" ->
            /\ Len(v.quads) = Len(qs)
            /\ v.groups = GroupsOf(rup.polys) /\ v.ngroups = np /\ v.nquads = Len(qs)
            /\ v.arrays = [k \in 1..np |-> SubSeq(rup.polys[k], 1, Len(rup.polys[k]) - 1)]
            /\ ("edge" \notin Classes(rup.polys)) =>       \* the constructors do not refuse others, but make of them what they can
               /\ \A k \in 1..Len(qs) : v.quads[k] \in Oriented(qs[k])
               /\ SameSeq(v.lengths, Each2(v.quads, TopLen)) /\ SameSeq(v.widths, Each2(v.quads, WidthOf))
               /\ Close(v.length, Sum(Each2(qs, TopLen)))
               /\ Close(v.width, Sum(Each2(v.quads, WidthOf)) \div Len(qs))
               /\ Close(v.area, Sum(Each2(v.quads, QuadArea)))
               /\ Near(v.top, 100 * TopOf(rup), 10)
               /\ StrikeOK(v.quads, v.strike) /\ DipOK(qs, v.dip)
               /\ Len(v.outline) = np
               /\ \A k \in 1..np : Straight(polyquads(k)) => \E q \in Choices(polyquads(k)) : v.outline[k] = Loop(q)
       [] rup.cls = "edge" ->
            /\ v.quads = qs
            /\ v.groups = VertexGroups(rup.polys)
            /\ Close(v.length, Sum(Each2(qs, FlatLen)))
            /\ Close(v.area, Sum(Each2(qs, EdgeArea)))
            /\ Near(v.width, (100 * Sum(Each2(qs, EdgeArea))) \div Sum(Each2(qs, FlatLen)), 6 + v.width \div 50)
            /\ Near(v.top, 100 * TopOf(rup), 10)
            /\ v.outline = rup.polys
            (* one plane throughout: strike and dip are those of the plane *)
            /\ (Len(qs) = 1 /\ Flatness(qs[1]) = "flat" /\ Level(qs[1]) /\ Right(qs[1]) # 0) =>
                 StrikeOK(<<CHOOSE q \in Oriented(qs[1]) : TRUE>>, v.strike) /\ DipOK(qs, v.dip)

LoadCalls(st) ==
  IF st.file.kind = "none" THEN {}
  ELSE IF st.file.kind = "text" THEN
    { [op |-> "load", how |-> "file", newf |-> n, dx |-> d] : d \in {50, 200},
      n \in IF st.file.fmt = "new" THEN {TRUE} ELSE IF st.file.fmt = "comma" THEN {TRUE, FALSE} ELSE {FALSE} }
  ELSE { [op |-> "load", how |-> h, newf |-> TRUE, dx |-> d] : d \in {50, 200},
         h \in {"file", "dictorigin"} \cup (IF st.file.typ = "hand" THEN {} ELSE {"dict"}) }
Calls(st) == { [op |-> "text", fmt |-> t[1], lines |-> t[2]] : t \in Texts }
  \cup { [op |-> "json", typ |-> "hand", polys |-> j[1], ref |-> j[2], bad |-> j[3]] : j \in Jsons }
  \cup LoadCalls(st) \cup Builds
  \cup (IF st.rup.cls = "none" \/ ~Writing THEN {} ELSE { [op |-> o] : o \in {"write", "redict"} \cup (IF st.rup.cls = "quad" THEN {"writetext"} ELSE {}) })
  \cup (IF st.rup.cls = "quad" THEN { [op |-> "depthat", p |-> p] : p \in Sites } ELSE {})
InitStates == { [rup |-> NoRup, file |-> NoFile] }
Inv(st) == \A k \in 1..Len(st.rup.polys) : Valid(st.rup.polys[k])
StepInv(st, c, o) ==
  /\ ~o.res.ok => o.st = st
  /\ c.op \in {"load", "build", "redict", "depthat"} => o.st.file = st.file
  /\ c.op \in {"text", "json", "write", "writetext", "depthat"} => o.st.rup = st.rup
  (* a rupture written as GeoJSON reads back as itself *)
  /\ c.op = "write" => \A r \in Load(o.st, [how |-> "dict", newf |-> TRUE, dx |-> 50]) : r.res.ok /\ r.st.rup = st.rup
  (* a polygon that starts anywhere reads as the same rupture *)
  /\ (c.op = "load" /\ o.res.ok /\ st.file.kind = "text") =>
       \A k \in 1..Len(o.st.rup.polys) : \E m \in 0..(Len(o.st.rup.polys[k]) - 2) :
           Rotate(Segments(st.file.lines, <<>>, 1)[k], m) = o.st.rup.polys[k]
StOf(j) == j
CallOf(j) == j
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
  /\ o.res.ok = r.ok /\ (r.ok \/ o.res.exc \in {"any", r.exc})
  /\ o.st = s2
  /\ r.kept
  /\ (c.op = "depthat" /\ r.ok /\ "edge" \notin Classes(st.rup.polys)) => DepthOK(st.rup, c.p, r.v)
  /\ Views(s2.rup, r.views)
=============================================================================
