----------------------------- MODULE Distances -----------------------------
(***************************************************************************)
(* Distances from sites to a rupture.                                      *)
(*   rup  [cls, polys, quads, dx, org]: quads is how the rupture holds its *)
(*        quadrilaterals (dipping to the right in a QuadRupture), dx the   *)
(*        mesh spacing of an EdgeRupture, org the hypocentre, case the     *)
(*        tectonic region and mechanism of a point.                        *)
(* Asking for distances changes nothing.  Distances are in hundredths.     *)
(***************************************************************************)
EXTENDS Geometry, FiniteSets
CONSTANTS Makes, Asks

R(ok, exc) == [ok |-> ok, exc |-> exc]
None == [cls |-> "none", polys |-> <<>>, quads |-> <<>>, dx |-> 0, org |-> <<0, 0, 0>>, case |-> <<"", "">>]
Measures == {"repi", "rhypo", "rjb", "rrup", "rx", "ry", "ry0", "U", "T", "rvolc"}
GC2 == {"rx", "ry", "ry0", "U", "T"}
SetOf(s) == { s[k] : k \in 1..Len(s) }
Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Div(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b          \* towards 0, b > 0

(* ---- what a call returns ---- *)
Needs(c) == IF c.how = "context" THEN SetOf(c.methods) \cup {"repi", "rhypo", "rrup", "rjb"} ELSE SetOf(c.methods)
(* one of the GC2 measures brings all of them, except into a context *)
Gives(c) == IF c.how # "context" /\ SetOf(c.methods) \cap GC2 # {} THEN SetOf(c.methods) \cup GC2 ELSE Needs(c)
Refused(c) == IF c.how = "notgmpe" THEN "TypeError"
              ELSE IF ~(SetOf(c.methods) \subseteq Measures) THEN "NotImplementedError"
              ELSE IF c.shape = "differ" THEN "ConsistentLengthError" ELSE ""
Outcomes(st, c) ==
  CASE c.op = "make" ->
         { [st |-> [rup |-> [cls |-> c.cls, polys |-> c.polys, quads |-> qs, dx |-> IF c.cls = "edge" THEN c.dx ELSE 0, org |-> c.org,
                            case |-> IF c.cls = "point" THEN <<c.region, c.mech>> ELSE <<"", "">>]], res |-> R(TRUE, "")] :
             qs \in IF c.cls = "quad" THEN Choices(QuadsOf(c.polys)) ELSE { QuadsOf(c.polys) } }
    [] c.op = "ask" -> LET no == IF st.rup.cls = "none" THEN "idle" ELSE Refused(c) IN { [st |-> st, res |-> R(no = "", no)] }

(* ---- straight lines ---- *)
Root10(num, den) == IF den = 0 THEN 0                                \* 100 * sqrt(num / den)
                    ELSE LET x == num \div den
                         IN IF x >= 2000 THEN Hundredths(x)
                            ELSE IF num < 20000 THEN Sqrt((num * 10000) \div den)
                            ELSE IF num < 2000000 THEN Sqrt(((num * 100) \div den) * 100) ELSE Hundredths(x)
SegDist(a, b, s) ==
  LET e == Sub(b, a)
      r == Sub(s, a)
      d == Dot(r, e)
  IN IF d <= 0 THEN Hundredths(Sq(r))
     ELSE IF d >= Sq(e) THEN Hundredths(Sq(Sub(s, b)))
     ELSE Root10(Sq(Cross(e, r)), Sq(e))                             \* |e x r| / |e|
Edges(q) == { <<q[k], q[(k % 4) + 1]>> : k \in 1..4 }
Rim(q, s) == Min({ SegDist(e[1], e[2], s) : e \in Edges(q) })
(* a flat convex quadrilateral *)
QuadDist(q, s) ==
  LET n == Normal(q)
      sides == { Dot(Cross(Sub(e[2], e[1]), n), Sub(s, e[1])) : e \in Edges(q) }
  IN IF n # <<0, 0, 0>> /\ ((\A x \in sides : x <= 0) \/ (\A x \in sides : x >= 0))
     THEN (10000 * Abs(Dot(n, Sub(s, q[1])))) \div Hundredths(Sq(n)) ELSE Rim(q, s)
Ground(p) == <<p[1], p[2], 0>>
OnGround(q) == [k \in 1..4 |-> Ground(q[k])]
(* off a quadrilateral seen from above; a vertical one is its trace *)
MapDist(q, s) == IF Right(q) # 0 /\ In(q, s) >= 0 THEN 0 ELSE Rim(OnGround(q), s)

(* ---- the mesh of an EdgeRupture ---- *)
(* parts: how many steps of dx fit, to the nearest; near a half, either *)
Parts(len, dx) == LET x == (100 * len) \div dx
                  IN { Max({1, k}) : k \in { (x + 50 - 4) \div 100, (x + 50 + 4) \div 100 } }
Mix(a, b, i, n) == <<(n - i) * a[1] + i * b[1], (n - i) * a[2] + i * b[2], (n - i) * a[3] + i * b[3]>>     \* scaled by n
Times(a, n) == <<a[1] * n, a[2] * n, a[3] * n>>
MeshDist(q, s, n, m) ==
  LET d2 == { LET top == Mix(q[1], q[2], i, n)
                  bot == Mix(q[4], q[3], i, n)
              IN Sq(Sub(Mix(top, bot, j, m), Times(s, n * m))) : i \in 0..n, j \in 0..m }
  IN Hundredths(Min(d2)) \div (n * m)
Meshes(q, dx) ==
  UNION { LET len(i) == Hundredths(Sq(Sub(Mix(q[1], q[2], i, n), Mix(q[4], q[3], i, n)))) \div n
              mean == Sum([i \in 1..(n + 1) |-> len(i - 1)]) \div (n + 1)
          IN { <<n, m>> : m \in Parts(mean, dx) } :
          n \in Parts(Hundredths(Sq(Sub(q[2], q[1]))), dx) }
EdgeDists(q, s, dx) == { MeshDist(q, s, m[1], m[2]) : m \in Meshes(q, dx) }
(* between the least and the most the minimum may come to *)
EdgeOK(qs, s, dx, v) ==
  LET d == [k \in 1..Len(qs) |-> EdgeDists(qs[k], s, dx)]
      lo == Min({ Min(d[k]) : k \in 1..Len(qs) })
      hi == Min({ Max(d[k]) : k \in 1..Len(qs) })
  IN v >= lo - 3 - lo \div 60 /\ v <= hi + 3 + hi \div 60

(* ---- generalized coordinates (Spudich and Chiou, 2015) ---- *)
(* arctan(k/32) in ten thousandths *)
AT == <<0, 312, 624, 935, 1244, 1550, 1853, 2153, 2450, 2742, 3029, 3310, 3588, 3859, 4124, 4383, 4636, 4884, 5124, 5359, 5586,
        5808, 6023, 6231, 6435, 6631, 6823, 7009, 7188, 7362, 7531, 7694, 7854>>
Atan01(y, x) == LET z == 32 * y                                        \* 0 <= y <= x
                    k == z \div x
                IN IF k >= 32 THEN 7854 ELSE AT[k + 1] + ((AT[k + 2] - AT[k + 1]) * (z - k * x)) \div x
Angle(y, x) == LET b == Abs(x)                                         \* of <<x, y>> off <<1, 0>>, y >= 0
                   t == IF b = 0 /\ y = 0 THEN 0 ELSE IF y <= b THEN Atan01(y, b) ELSE 15708 - Atan01(b, y)
               IN IF x >= 0 THEN t ELSE 31416 - t
Len2(e) == Hundredths(e[1] * e[1] + e[2] * e[2])
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
(* segments [a, b, off]: from a to b, off how far along a is *)
SegU(g, s) == Div(10000 * Dot2(Sub(s, g.a), Sub(g.b, g.a)), Len2(Sub(g.b, g.a)))
SegT(g, s) == Div(10000 * Cross2(Sub(s, g.a), Sub(g.b, g.a)), Len2(Sub(g.b, g.a)))
On(g, s) == SegT(g, s) = 0 /\ SegU(g, s) >= -1 /\ SegU(g, s) <= Len2(Sub(g.b, g.a)) + 1
Theta(g, s) == LET x == Sub(g.a, s)
                   y == Sub(g.b, s)
               IN Angle(Abs(Cross2(x, y)), Dot2(x, y))
Weight(g, s) == LET u == SegU(g, s)                                    \* times 100000
                    l == Len2(Sub(g.b, g.a))
                    t == SegT(g, s)
                IN IF t # 0 THEN (1000 * Theta(g, s)) \div Abs(t)
                   ELSE IF u > l THEN (((1000 * l) \div u) * 10000) \div (u - l)
                   ELSE (((1000 * l) \div (l - u)) * 10000) \div (-u)
TOf(gs, s) == IF \E k \in 1..Len(gs) : On(gs[k], s) THEN 0
              ELSE Div(Sum([k \in 1..Len(gs) |-> IF SegT(gs[k], s) = 0 THEN 0 ELSE (IF SegT(gs[k], s) < 0 THEN -1000 ELSE 1000) * Theta(gs[k], s)]),
                       Sum([k \in 1..Len(gs) |-> Weight(gs[k], s)]))
UOf(gs, s) == IF \E k \in 1..Len(gs) : On(gs[k], s) THEN LET k == CHOOSE k \in 1..Len(gs) : On(gs[k], s) IN SegU(gs[k], s) + gs[k].off
              ELSE LET w == [k \in 1..Len(gs) |-> Weight(gs[k], s)]
                       sc == 1 + Sum(w) \div 200000
                       v == [k \in 1..Len(gs) |-> w[k] \div sc]
                   IN Div(Sum([k \in 1..Len(gs) |-> v[k] * (SegU(gs[k], s) + gs[k].off)]), Sum(v))
End(gs) == Max({ gs[k].off + Len2(Sub(gs[k].b, gs[k].a)) : k \in 1..Len(gs) })
(* how the segments follow one another *)
RECURSIVE Chain(_, _)
Chain(es, off) == IF es = <<>> THEN <<>>
                  ELSE <<[a |-> es[1][1], b |-> es[1][2], off |-> off]>> \o Chain(Tail(es), off + Len2(Sub(es[1][2], es[1][1])))
Backwards(es) == [k \in 1..Len(es) |-> <<es[Len(es) + 1 - k][2], es[Len(es) + 1 - k][1]>>]
Tracks(rup) ==     \* the top edges of each group
  LET g == GroupsOf(rup.polys)
  IN [k \in 1..Len(rup.polys) |-> LET ix == SelectSeq([i \in 1..Len(g) |-> i], LAMBDA i : g[i] = k - 1)
                                 IN [i \in 1..Len(ix) |-> <<Ground(rup.quads[ix[i]][1]), Ground(rup.quads[ix[i]][2])>>]]
First(es) == es[1][1]
Last(es) == es[Len(es)][2]
Ends(tr) == UNION { { First(tr[k]), Last(tr[k]) } : k \in 1..Len(tr) }
(* the two ends farthest apart; nearly as far will do *)
Farthest(tr) ==
  LET d2(p) == Sq(Sub(p[1], p[2]))
      all == { p \in Ends(tr) \X Ends(tr) : p[1] # p[2] }
      m == Max({ d2(p) : p \in all })
  IN { p \in all : d2(p) * 100 >= 97 * m }
Along(tr, p) == [k \in 1..Len(tr) |-> Dot2(Sub(Last(tr[k]), First(tr[k])), Sub(p[2], p[1]))]
(* nothing can be said when the groups cancel out, or one runs square to the rest *)
Clear(tr, p) == /\ 10 * Abs(Sum(Along(tr, p))) > Sum([k \in 1..Len(tr) |-> Abs(Along(tr, p)[k])])
                /\ \A k \in 1..Len(tr) : 2000 * Abs(Along(tr, p)[k]) > Len2(Sub(Last(tr[k]), First(tr[k]))) * (Len2(Sub(p[2], p[1])) \div 100)
Segs(tr, p) ==     \* p points along the nominal strike
  Flat([k \in 1..Len(tr) |->
          LET es == IF Along(tr, p)[k] < 0 THEN Backwards(tr[k]) ELSE tr[k]
          IN Chain(es, Div(10000 * Dot2(Sub(First(es), p[1]), Sub(p[2], p[1])), Len2(Sub(p[2], p[1]))))], 1)
Total(tr) == Sum(Flat([k \in 1..Len(tr) |-> [i \in 1..Len(tr[k]) |-> Len2(Sub(tr[k][i][2], tr[k][i][1]))]], 1))
Close(a, b) == Near(a, b, 4 + Abs(b) \div 50)
Crossing(gs, s) == \E j, k \in 1..Len(gs) : On(gs[j], s) /\ On(gs[k], s) /\ ~Near(SegU(gs[j], s) + gs[j].off, SegU(gs[k], s) + gs[k].off, 2)
GC2OK(gs, total, s, v) ==      \* v: rx, ry, ry0, U, T of one site
  Crossing(gs, s) \/
  LET t == TOf(gs, s)
      u == UOf(gs, s)
      end == End(gs)
      tol == 8 + (Abs(u) + Abs(t) + end) \div 60
      off == IF u < 0 THEN -u ELSE IF u > end THEN u - end ELSE 0
  IN /\ Near(v.T, t, tol) /\ Near(v.U, u, tol)
     /\ Near(v.rx, v.T, 1) /\ Near(v.ry, v.U - total \div 2, tol)
     /\ Near(v.ry0, off, tol)
     /\ v.ry0 >= 0

(* ---- a call and its result: r.v is the values of one site, by measure ---- *)
At(r, m, k) == r.v[m][k]
PlainOK(rup, c, r) == \A k \in 1..Len(c.sites) :
  LET s == c.sites[k]
      d == Sub(rup.org, s)
  IN /\ "repi" \in Gives(c) => Close(At(r, "repi", k), Hundredths(d[1]*d[1] + d[2]*d[2] + s[3]*s[3]))
     /\ "rhypo" \in Gives(c) => Close(At(r, "rhypo", k), Hundredths(Sq(d)))
     /\ "rvolc" \in Gives(c) => At(r, "rvolc", k) = 0
DxOf(rup, c) == IF c.how = "context" THEN rup.dx ELSE c.dx
FaultOK(rup, c, r) == \A k \in 1..Len(c.sites) :
  LET s == c.sites[k]
      qs == rup.quads
  IN /\ "rrup" \in Gives(c) =>
          IF rup.cls = "quad" THEN Close(At(r, "rrup", k), Min({ QuadDist(qs[j], s) : j \in 1..Len(qs) }))
          ELSE EdgeOK(qs, s, DxOf(rup, c), At(r, "rrup", k))
     /\ ("rjb" \in Gives(c) /\ s[3] = 0) =>
          IF rup.cls = "quad" THEN Close(At(r, "rjb", k), Min({ MapDist(qs[j], s) : j \in 1..Len(qs) }))
          ELSE EdgeOK([j \in 1..Len(qs) |-> OnGround(qs[j])], s, DxOf(rup, c), At(r, "rjb", k))
Rec(c, r, k) == [rx |-> At(r, "rx", k), ry |-> At(r, "ry", k), ry0 |-> At(r, "ry0", k), U |-> At(r, "U", k), T |-> At(r, "T", k)]
(* nothing can be said of a trace in pieces, or folded back; or of a site where traces cross *)
Tidy(es) == \A k \in 1..(Len(es) - 1) : es[k][2] = es[k + 1][1] /\ Dot2(Sub(es[k][2], es[k][1]), Sub(es[k + 1][2], es[k + 1][1])) > 0
TraceOK(rup, c, r) == (GC2 \subseteq Gives(c) /\ \A k \in 1..Len(rup.polys) : Tidy(Tracks(rup)[k])) =>
  LET tr == Tracks(rup)
      ok(gs) == \A k \in 1..Len(c.sites) : GC2OK(gs, Total(tr), c.sites[k], Rec(c, r, k))
  IN IF Len(tr) = 1 THEN ok(Chain(tr[1], 0))
     ELSE LET ps == Farthest(tr)
          IN (\A p \in ps : Clear(tr, p)) => \E p \in ps : Sum(Along(tr, p)) > 0 /\ ok(Segs(tr, p))
(* a point stands for ruptures of its magnitude through it: what is expected lies between nothing and the point *)
PointOK(rup, c, r) ==
  LET n == Len(c.sites)
      nm == {"rjb", "rrup"} \subseteq Gives(c)
      d(k) == LET x == Sub(rup.org, c.sites[k]) IN x[1]*x[1] + x[2]*x[2]
  IN /\ "rjb" \in Gives(c) => \A k \in 1..n : At(r, "rjb", k) >= 0 /\ At(r, "rjb", k) <= Hundredths(d(k)) + 5 + Hundredths(d(k)) \div 50
     /\ "rrup" \in Gives(c) => \A k \in 1..n : At(r, "rrup", k) <= LET h == Hundredths(Sq(Sub(rup.org, c.sites[k]))) IN h + 5 + h \div 50
     /\ nm => \A k \in 1..n : At(r, "rjb", k) <= At(r, "rrup", k) + 5
     /\ \A m \in {"rjb", "rrup"} \cap Gives(c) : \A j, k \in 1..n :
          /\ d(j) = d(k) => Near(At(r, m, j), At(r, m, k), 5 + Abs(At(r, m, k)) \div 50)
          /\ 100 * d(j) > 110 * d(k) => At(r, m, j) >= At(r, m, k) - 2
     /\ \A m \in {"rjb", "rrup"} \cap Gives(c) : r.var[m]
(* which ruptures they are: r.exact if a straight line k/10 x (+ 7 for rrup) of variance k (+ 1/2) stands for the k'th *)
Stands(case) == LET m == CASE case[2] \in {"", "ALL"} -> 1 [] case[2] = "RS" -> 2 [] case[2] = "NM" -> 3 [] case[2] = "SS" -> 4
                IN IF case[1] = "active" THEN m ELSE IF case[1] = "stable" THEN m + 4 ELSE 1
StandOK(rup, c, r) == \A k \in 1..Len(c.sites) :
  LET x == Sub(rup.org, c.sites[k])
      n == Stands(rup.case)
      d == Hundredths(x[1]*x[1] + x[2]*x[2] + c.sites[k][3] * c.sites[k][3])
  IN /\ "rjb" \in Gives(c) => Close(At(r, "rjb", k), (d * n) \div 10) /\ r.vars.rjb[k] = 100 * n
     /\ "rrup" \in Gives(c) => Close(At(r, "rrup", k), 700 + (d * n) \div 10) /\ r.vars.rrup[k] = 100 * n + 50
GC2Zero(c, r) == \A m \in GC2 \cap Gives(c) : \A k \in 1..Len(c.sites) : At(r, m, k) = 0
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
  /\ o.res.ok = r.ok /\ o.res.exc = r.exc /\ o.st = s2 /\ r.kept
  /\ (c.op = "ask" /\ r.ok) =>
       /\ SetOf(r.keys) = Gives(c) /\ r.shape
       /\ PlainOK(st.rup, c, r)
       /\ IF st.rup.cls = "point" THEN IF r.exact THEN GC2Zero(c, r) /\ StandOK(st.rup, c, r) ELSE GC2Zero(c, r) /\ PointOK(st.rup, c, r)
          ELSE FaultOK(st.rup, c, r) /\ TraceOK(st.rup, c, r) /\ \A m \in {"rjb", "rrup"} \cap Gives(c) : ~r.var[m]

Calls(st) == Makes \cup (IF st.rup.cls = "none" THEN {} ELSE Asks)
InitStates == { [rup |-> None] }
Inv(st) == /\ Len(st.rup.quads) = Len(QuadsOf(st.rup.polys))
           (* what the distances of the specification must satisfy whatever the rupture *)
           /\ st.rup.cls = "quad" => \A k \in 1..Len(st.rup.quads) : LET q == st.rup.quads[k] IN
                /\ Right(q) >= 0
                /\ \A j \in 1..4 : QuadDist(q, q[j]) = 0 /\ MapDist(q, Ground(q[j])) = 0
           /\ st.rup.cls # "none" => \A k \in 1..Len(st.rup.polys) : LET gs == Chain(Tracks(st.rup)[k], 0) IN
                /\ UOf(gs, gs[1].a) = 0
                /\ Near(UOf(gs, gs[Len(gs)].b), End(gs), 1)
StepInv(st, c, o) ==
  /\ c.op = "ask" => o.st = st
  /\ (c.op = "ask" /\ o.res.ok /\ st.rup.cls = "quad") => \A k \in 1..Len(c.sites), j \in 1..Len(st.rup.quads) :
       LET q == st.rup.quads[j]
           s == c.sites[k]
       IN QuadDist(q, s) + 2 >= MapDist(q, Ground(s)) \/ s[3] # 0        \* the rupture is no nearer than its shadow
StOf(j) == j
CallOf(j) == j
=============================================================================
