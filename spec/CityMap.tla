------------------------------ MODULE CityMap ------------------------------
(***************************************************************************)
(* Maps with the names of cities.                                          *)
(*   map: [x0, x1, y0, y1] in quarter degrees with padding pad (in         *)
(*        hundredths) around labels, and the cities [name, lon, lat, pop]  *)
(*   left: the cities (by number) still to choose from                     *)
(*   drawn: how many labels and dots are on the map                        *)
(* What is on the map is in tenths of a pixel; the boxes of labels (their  *)
(* widths and heights in the font asked for) are measured apart from it.   *)
(***************************************************************************)
EXTENDS Mercator, FiniteSets, TLC
CONSTANTS Maps, Draws, Limit

Abs(x) == IF x < 0 THEN -x ELSE x
Slack == 15                                            \* tenths of a pixel: text is set on whole pixels
All(m) == 1..Len(m.cities)
Inside(m, k) == LET p == m.cities[k] IN p.lat > m.y0 /\ p.lat <= m.y1 /\ p.lon > m.x0 /\ p.lon <= m.x1

(* where a city is, given the axes' box r.box = <<left, bottom, right, top>> *)
X(m, k, r) == r.box[1] + ((m.cities[k].lon - m.x0) * (r.box[3] - r.box[1])) \div (m.x1 - m.x0)
Yp(m, k, r) == r.box[2] + ((Y(m.cities[k].lat) - Y(m.y0)) * ((r.box[4] - r.box[2]) \div 10)) \div ((Y(m.y1) - Y(m.y0)) \div 10)
(* its label: 4 pixels to the right, halfway up *)
Box(m, k, r) == LET x == X(m, k, r) + 40
                 y == Yp(m, k, r)
             IN [l |-> x, r |-> x + r.size[k][1], b |-> y - (r.size[k][2] \div 2), t |-> y + (r.size[k][2] \div 2)]
Padded(m, k, r) == LET b == Box(m, k, r)
                    px == (r.size[k][1] * m.pad) \div 100
                    py == (r.size[k][2] * m.pad) \div 100
                IN [l |-> b.l - px, r |-> b.r + px, b |-> b.b - py, t |-> b.t + py]
Clear(p, q, d) == p.l - q.r > d \/ q.l - p.r > d \/ p.b - q.t > d \/ q.b - p.t > d
Off(p, r, d) == p.l < r.box[1] - d \/ p.r > r.box[3] + d \/ p.b < r.box[2] - d \/ p.t > r.box[4] + d

(* the quarter of the cities' own area a city is in; at most 15 of each are considered *)
Max(s) == CHOOSE x \in s : \A y \in s : x >= y
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
(* the sums of its least and greatest longitude and latitude *)
Middle(m, s) == << Min({ m.cities[j].lon : j \in s }) + Max({ m.cities[j].lon : j \in s }), Min({ m.cities[j].lat : j \in s }) + Max({ m.cities[j].lat : j \in s }) >>
Quarter(m, k, mid) == << 2 * m.cities[k].lon > mid[1], 2 * m.cities[k].lat > mid[2] >>
Crowded(m, k, s, mid) == Cardinality({ j \in s \ {k} : m.cities[j].pop >= m.cities[k].pop /\ Quarter(m, j, mid) = Quarter(m, k, mid) }) >= 15
Cands(st) == { k \in st.left : Inside(st.map, k) }

(* the labels that may be chosen: P are their boxes, padded *)
Good2(m, s, r, kept, B, P, mid) ==
  /\ \A k \in kept : ~Off(B[k], r, Slack)
  /\ \A j, k \in kept : j < k => Clear(P[j], P[k], -2 * Slack)
  /\ \A k \in s \ kept : \/ Off(P[k], r, -Slack)
                         \/ Cardinality(s) > 15 /\ Crowded(m, k, s, mid)
                         \/ \E j \in s \ {k} : m.cities[j].pop >= m.cities[k].pop /\ ~Off(B[j], r, Slack) /\ ~Clear(P[j], P[k], 2 * Slack)
Good(st, r, kept) ==
  \E s \in {Cands(st)} :
    /\ kept \subseteq s
    /\ (IF s = {} THEN TRUE
        ELSE \E B \in {[k \in s |-> Box(st.map, k, r)]} : \E P \in {[k \in s |-> Padded(st.map, k, r)]} : \E mid \in {Middle(st.map, s)} :
               Good2(st.map, s, r, kept, B, P, mid))

R(ok, exc) == [ok |-> ok, exc |-> exc]
(* drawing: which labels are chosen depends on their sizes, so every subset is an outcome here and Accept is what decides *)
Outcomes(st, c) ==
  IF c.op = "open" THEN { [st |-> [map |-> c.map, left |-> All(c.map), labels |-> 0, dots |-> 0], res |-> R(TRUE, "")] }
  ELSE IF c.font = "none" THEN { [st |-> st, res |-> R(FALSE, "KeyError")] }
  ELSE { [st |-> [map |-> st.map, left |-> kept, labels |-> st.labels + Cardinality(kept), dots |-> st.dots + (IF c.dots THEN Cardinality(kept) ELSE 0)], res |-> R(TRUE, "")] : kept \in SUBSET Cands(st) }
OnPlace(m, k, r, l) == LET b == Box(m, k, r) IN Abs(l.l - b.l) <= Slack /\ Abs(l.r - b.r) <= 2 * Slack /\ Abs(l.b - b.b) <= 2 * Slack /\ Abs(l.t - b.t) <= 2 * Slack
Accept(st, c, r, s2) ==
  IF c.op = "open" THEN r.ok /\ \E o \in Outcomes(st, c) : o.st = s2
  ELSE IF c.font = "none" THEN ~r.ok /\ r.exc = "KeyError" /\ s2 = st
  ELSE /\ r.ok /\ s2.map = st.map
       /\ s2.left \subseteq st.left
       /\ s2.labels = st.labels + Cardinality(s2.left)
       /\ s2.dots = st.dots + (IF c.dots THEN Cardinality(s2.left) ELSE 0)
       /\ Good(st, r, s2.left)
       /\ DOMAIN r.labels = 1..Cardinality(s2.left)
       /\ { r.labels[i].k : i \in DOMAIN r.labels } = s2.left
       /\ \A i \in DOMAIN r.labels : OnPlace(st.map, r.labels[i].k, r, r.labels[i])
       /\ (IF c.dots THEN /\ { r.dots[i].k : i \in DOMAIN r.dots } = s2.left
                          /\ \A i \in DOMAIN r.dots : Abs(r.dots[i].x - X(st.map, r.dots[i].k, r)) <= 10 /\ Abs(r.dots[i].y - Yp(st.map, r.dots[i].k, r)) <= 10
           ELSE r.dots = <<>>)
       /\ r.style
Calls(st) == { [op |-> "open", map |-> m] : m \in Maps } \cup (IF st.labels + st.dots > Limit \/ st.map.cities = <<>> THEN {} ELSE Draws)
Nowhere == [x0 |-> 0, x1 |-> 4, y0 |-> 0, y1 |-> 4, pad |-> 0, cities |-> <<>>]
InitStates == { [map |-> Nowhere, left |-> {}, labels |-> 0, dots |-> 0] }
Inv(st) == st.left \subseteq All(st.map) /\ st.dots <= st.labels
StepInv(st, c, o) == (c.op = "draw" => o.st.left \subseteq st.left /\ o.st.labels - st.labels \in {0, Cardinality(o.st.left)}) /\ (~o.res.ok => o.st = st)
StOf(j) == [map |-> j.map, left |-> { j.left[i] : i \in DOMAIN j.left }, labels |-> j.labels, dots |-> j.dots]
CallOf(j) == j
=============================================================================
