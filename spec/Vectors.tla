------------------------------ MODULE Vectors ------------------------------
(***************************************************************************)
(* A vector in hand and what can be done with it; places on and below the  *)
(* surface of the Earth (WGS84) as vectors from its centre, and back.      *)
(*   v: the vector in hand, integers                                       *)
(***************************************************************************)
EXTENDS Sines, TLC
CONSTANTS Vecs, Nums, Places, Ways, Limit

R(ok, exc) == [ok |-> ok, exc |-> exc, n |-> <<>>]
N(n) == [R(TRUE, "") EXCEPT !.n = n]
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Times(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Small(a) == \A k \in 1..3 : a[k] \in -Limit..Limit
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- places: half degrees and km of depth; vectors in tenths of a kilometre ---- *)
Sin(h) == LET r == (2 * h) % 1440                     \* times 10000
          IN IF r <= 360 THEN Table[1 + r] ELSE IF r <= 720 THEN Table[1 + 720 - r] ELSE IF r <= 1080 THEN -Table[1 + r - 720] ELSE -Table[1 + 1440 - r]
Cos(h) == Sin(h + 180)
Part(a, b) == (a * b) \div 10000                      \* a up to 100000 (tenths of a kilometre)
(* radius of curvature: a / sqrt(1 - e^2 s^2), with e^2 = 0.00669438, to the second order *)
Square(s) == (s * s) \div 10000
Curv(lat) == LET q == (Square(Sin(lat)) * 66944) \div 10000            \* e^2 s^2 times 10^7
             IN 63781 + (q * 319) \div 100000 + ((q \div 100) * (q \div 100) * 24) \div 10000000
Centre(p) == LET n == Curv(p.lat)
                 up == -10 * p.dep
                 c == Part(n + up, Cos(p.lat))
             IN <<Part(c, Cos(p.lon)), Part(c, Sin(p.lon)), Part((n - ((n * 669) \div 100000)) + up, Sin(p.lat))>>
Near(a, b) == \A k \in 1..3 : Abs(a[k] - b[k]) <= 25   \* two and a half kilometres: the sines have four digits
(* a place as it comes back: -180 may be 180, and at the poles any longitude will do *)
Back(p, got) == /\ got[1] = p.lat /\ got[3] = p.dep
                /\ (p.lat \notin {-180, 180} => (got[2] - p.lon) % 720 = 0 /\ got[2] \in -360..360)

(* ---- from one place to another, as in Compass ---- *)
Way(c) == LET d == c.lon2 - c.lon1
          IN << (Cos(c.lat1) * Sin(c.lat2) - (((Sin(c.lat1) * Cos(c.lat2)) \div 10000) * Cos(d))) \div 10000, (Sin(d) * Cos(c.lat2)) \div 10000 >>
Points(v, h) ==                                        \* the direction h (half degrees) is within half a degree of v, and four units
  LET tol == 40000 + 90 * (Abs(v[1]) + Abs(v[2]))
      x == Cos(h) * v[2] - Sin(h) * v[1]
  IN Abs(x) <= tol /\ Cos(h) * v[1] + Sin(h) * v[2] > 0
Vague(v) == v[1] \in -30..30 /\ v[2] \in -30..30

O(st, res) == [st |-> st, res |-> res]
Bad(c) == c.w = "other"
Outcomes(st, c) ==
  CASE c.op = "be" -> { O([v |-> c.v], R(TRUE, "")) }
    [] c.op \in {"add", "sub", "cross", "dot", "distance", "eq"} /\ c.v = <<>> -> { O(st, R(FALSE, "TypeError")) }
    [] c.op = "mul" /\ c.k = <<>> -> { O(st, R(FALSE, "TypeError")) }
    [] c.op = "add" -> { O([v |-> Add(st.v, c.v)], R(TRUE, "")) }
    [] c.op = "sub" -> { O([v |-> Sub(st.v, c.v)], R(TRUE, "")) }
    [] c.op = "cross" -> { O([v |-> Cross(st.v, c.v)], R(TRUE, "")) }
    [] c.op = "mul" -> { O([v |-> Times(c.k[1], st.v)], R(TRUE, "")) }
    [] c.op = "dot" -> { O(st, N(<<Dot(st.v, c.v)>>)) }
    [] c.op = "distance" -> { O(st, N(<<Dot(Sub(st.v, c.v), Sub(st.v, c.v))>>)) }          \* its square
    [] c.op = "mag" -> { O(st, N(<<Dot(st.v, st.v)>>)) }
    [] c.op = "eq" -> { O(st, N(<<IF st.v = c.v THEN 1 ELSE 0>>)) }
    [] c.op = "forms" -> { O(st, N(st.v \o st.v \o st.v)) }
    [] c.op = "norm" -> { O(st, N(<<>>)) }
    [] c.op = "bearing" -> { O(st, N(<<>>)) }
    [] OTHER -> { O(st, N(<<>>)) }                      \* places
(* the unit vector, times 1000: along v, of length one *)
Unit(v, n) == LET x == Cross(v, n)
                  m == Abs(v[1]) + Abs(v[2]) + Abs(v[3])
              IN /\ Abs(Dot(n, n) - 1000000) <= 3000 /\ Dot(v, n) > 0 /\ \A k \in 1..3 : Abs(x[k]) <= 2 * m
Accept(st, c, r, s2) ==
  \E o \in Outcomes(st, c) :
    /\ o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc
    /\ CASE ~r.ok -> TRUE
         [] c.op = "norm" -> Unit(st.v, r.n)
         [] c.op = "bearing" -> LET w == Way(c) IN Len(r.n) = 1 /\ (Vague(w) \/ \E h \in {r.n[1]} : Points(w, h))
         [] c.op = "places" -> Len(r.n) = Len(c.ps) /\ \A k \in 1..Len(r.n) : Near(r.n[k][1], Centre(c.ps[k])) /\ Back(c.ps[k], r.n[k][2])
         [] OTHER -> o.res.n = r.n
Calls(st) ==
  { [op |-> "be", v |-> v] : v \in Vecs } \cup
  { [op |-> o, v |-> v] : o \in {"add", "sub", "cross"}, v \in { w \in Vecs \cup {<<>>} : w = <<>> \/ (Small(Add(st.v, w)) /\ Small(Sub(st.v, w)) /\ Small(Cross(st.v, w))) } } \cup
  { [op |-> o, v |-> v] : o \in {"dot", "distance", "eq"}, v \in Vecs \cup {<<>>, st.v} } \cup
  { [op |-> "mul", k |-> k] : k \in { m \in Nums : m = <<>> \/ Small(Times(m[1], st.v)) } } \cup
  { [op |-> o] : o \in {"mag", "forms"} \cup (IF st.v = <<0, 0, 0>> THEN {} ELSE {"norm"}) } \cup Places \cup Ways
InitStates == { [v |-> <<0, 0, 0>>] }
Inv(st) == Len(st.v) = 3
StepInv(st, c, o) ==
  /\ (~o.res.ok => o.st = st)
  /\ (c.op = "cross" /\ o.res.ok => Dot(o.st.v, st.v) = 0 /\ Dot(o.st.v, c.v) = 0
        /\ Dot(o.st.v, o.st.v) = Dot(st.v, st.v) * Dot(c.v, c.v) - Dot(st.v, c.v) * Dot(st.v, c.v))
  /\ (c.op = "add" /\ o.res.ok => Sub(o.st.v, c.v) = st.v)
  \* the specification's own Earth: between the polar and the equatorial radius, less the depth
  /\ (c.op = "places" => \A k \in 1..Len(c.ps) :
        LET x == Centre(c.ps[k])
            y == [k2 \in 1..3 |-> Abs(x[k2]) \div 10]
            q == y[1] * y[1] + y[2] * y[2] + y[3] * y[3]
            lo == 6352 - c.ps[k].dep
            hi == 6382 - c.ps[k].dep
        IN q >= lo * lo /\ q <= hi * hi)
StOf(j) == j
CallOf(j) == j
=============================================================================
