------------------------------ MODULE ScaleBar ------------------------------
(***************************************************************************)
(* Scale bars on maps.                                                     *)
(*   map: what the map shows: [kind, x0, x1, y0, y1], kind "degrees" (half *)
(*        degrees), "metres" or "feet"                                     *)
(*   bars: how many bars have been drawn                                   *)
(* Lengths of bars are in hundredths of the unit asked for, places in      *)
(* 1/10000 of the axes, heights in hundredths of a point.                  *)
(***************************************************************************)
EXTENDS Sines, FiniteSets, TLC
CONSTANTS Maps, Draws, Limit

Abs(x) == IF x < 0 THEN -x ELSE x
Cos(q) == Table[361 - Abs(q)]                          \* quarter degrees of latitude; times 10000
MulDiv(a, b, c) == (a \div c) * b + (((a % c) * b) \div c)

(* the lengths to choose from and their divisions *)
Choice == << <<4, 4>>, <<10, 2>>, <<12, 4>>, <<15, 3>>, <<20, 4>>, <<30, 3>>, <<40, 4>>, <<75, 3>>, <<100, 4>>, <<120, 4>>, <<150, 3>>, <<200, 4>>,
             <<240, 6>>, <<300, 6>>, <<400, 4>>, <<600, 6>>, <<750, 3>>, <<1000, 4>>, <<2000, 4>>, <<4000, 4>>, <<6000, 6>>, <<10000, 4>>, <<20000, 4>>,
             <<40000, 4>>, <<60000, 6>>, <<75000, 3>>, <<100000, 4>>, <<200000, 4>> >>
(* a unit in metres: numerator and denominator *)
Unit(u) == CASE u = "km" -> <<1000, 1>> [] u = "m" -> <<1, 1>> [] u = "dm" -> <<1, 10>> [] u = "cm" -> <<1, 100>> [] u = "mm" -> <<1, 1000>>
             [] u = "kmi" -> <<1852, 1>> [] u \in {"in", "us-in"} -> <<127, 5000>> [] u \in {"ft", "us-ft", "ind-ft"} -> <<381, 1250>> [] u \in {"yd", "ind-yd"} -> <<1143, 1250>>
             [] u \in {"mi", "us-mi"} -> <<16093, 10>> [] u = "fath" -> <<1143, 625>> [] u \in {"ch", "us-ch", "ind-ch"} -> <<20117, 1000>>
             [] u = "link" -> <<503, 2500>>
Units == {"km", "m", "dm", "cm", "mm", "kmi", "in", "ft", "us-ft", "ind-ft", "yd", "ind-yd", "mi", "us-mi", "fath", "ch", "us-ch", "ind-ch", "link", "us-in"}

(* the width of the map in metres, true at its centre; then in hundredths of a unit *)
Metres(m) == CASE m.kind = "degrees" -> MulDiv((m.x1 - m.x0) * 55595 + ((m.x1 - m.x0) \div 2), Cos(m.y0 + m.y1), 10000)
               [] m.kind = "metres" -> m.x1 - m.x0
               [] m.kind = "feet" -> MulDiv(m.x1 - m.x0, 3048, 10000)
Width(m, u) == MulDiv(Metres(m), 100 * Unit(u)[2], Unit(u)[1])
Chosen(w) == { k \in 1..Len(Choice) : \A j \in 1..Len(Choice) : Abs(400 * Choice[k][1] - w) <= Abs(400 * Choice[j][1] - w) + (w \div 500) + 4 }
(* how much of the axes a bar takes *)
Part(len, w) == LET k == (w \div 20000) + 1 IN ((len \div k) * 10000) \div (w \div k)

Bars(st, c) == IF c.len # <<>> THEN { [len |-> c.len[1], div |-> c.div[1]] }
               ELSE { [len |-> 100 * Choice[k][1], div |-> Choice[k][2]] : k \in Chosen(Width(st.map, c.units)) }
Errors(c) == (IF (c.len = <<>>) # (c.div = <<>>) THEN {"RequiredArgumentError"} ELSE {})
             \cup (IF (c.div # <<>> /\ c.div[1] \notin 2..6) \/ c.units \notin Units \/ c.pos \notin {"ll", "lr", "ul", "ur"} \/ c.plain THEN {"ValueError"} ELSE {})
R(ok, exc) == [ok |-> ok, exc |-> exc]
O(st, res) == [st |-> st, res |-> res]
Outcomes(st, c) ==
  CASE c.op = "frame" -> { O([st EXCEPT !.map = c.map], R(TRUE, "")) }
    [] c.op = "draw" /\ Errors(c) # {} -> { O(st, R(FALSE, e)) : e \in Errors(c) }
    [] c.op = "draw" -> { O([st EXCEPT !.bars = st.bars + 1], R(TRUE, "")) }

(* what may be on the axes: the bar b at the place asked for *)
Labelled(b) == IF b.div % 2 = 0 THEN { i \in 0..b.div : i % 2 = 0 } ELSE {0, b.div}
Close(a, b, tol) == Abs(a - b) <= tol
Right(st, c, r, b) ==
  LET f == Part(b.len, Width(st.map, c.units))
      tol == 4 + (f \div 300)
      left == IF c.pos \in {"ll", "ul"} THEN 100 * c.padx ELSE 10000 - 100 * c.padx - f
      at(i) == left + ((f * i) \div b.div)
      ls == Labelled(b)
      nth(k) == IF b.div % 2 = 0 THEN 2 * (k - 1) ELSE IF k = 1 THEN 0 ELSE b.div        \* the k-th label's division
  IN /\ Len(r.divs) = b.div
     /\ \A i \in 1..b.div : /\ Close(r.divs[i].left, at(i - 1), tol) /\ Close(r.divs[i].right, at(i), tol)
                            /\ r.divs[i].color = (IF i % 2 = 1 THEN "white" ELSE "black")
                            /\ r.divs[i].bottom = r.divs[1].bottom /\ r.divs[i].top = r.divs[1].top
                            /\ (i > 1 => Close(r.divs[i].left, r.divs[i - 1].right, 1))
     /\ (c.pos \in {"ll", "lr"} => Close(r.divs[1].bottom, 100 * c.pady, 2))
     /\ (c.pos \in {"ul", "ur"} => Close(r.divs[1].top, 10000 - 100 * c.pady, 2))
     /\ Close(r.height, 75 * c.font, 3)
     /\ Len(r.labels) = Cardinality(ls) /\ Len(r.ticks) = Cardinality(ls)
     /\ \A k \in 1..Len(r.labels) : /\ Close(r.labels[k].says, (nth(k) * b.len) \div b.div, 1)
                                    /\ Close(r.labels[k].x, at(nth(k)), tol + 40) /\ Close(r.ticks[k], at(nth(k)), tol)
     /\ Len(r.names) = 1 /\ r.names[1].says = c.units /\ Close(r.names[1].x, left + (f \div 2), tol + 40)
     /\ r.order /\ r.fonts /\ r.outline
Accept(st, c, r, s2) ==
  \E o \in Outcomes(st, c) :
    /\ o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc
    /\ (IF r.ok /\ c.op = "draw" THEN \E b \in Bars(st, c) : Right(st, c, r, b) ELSE TRUE)

Fits(c, m) == c.plain \/ c.units \notin Units \/ (/\ Metres(m) \div Unit(c.units)[1] < 2000000 \div Unit(c.units)[2]
                                             /\ \E w \in {Width(m, c.units)} : w >= 500 /\ (c.len = <<>> \/ c.len[1] \div 3 <= w))
Calls(st) == { [op |-> "frame", map |-> m] : m \in Maps \ {st.map} } \cup (IF st.bars >= Limit THEN {} ELSE { c \in Draws : Fits(c, st.map) })
InitStates == { [map |-> [kind |-> "degrees", x0 |-> -240, x1 |-> -236, y0 |-> 68, y1 |-> 72], bars |-> 0] }
Inv(st) == st.bars >= 0 /\ st.map.x0 < st.map.x1 /\ st.map.y0 < st.map.y1
StepInv(st, c, o) ==
  /\ (~o.res.ok => o.st = st)
  /\ (c.op = "draw" /\ o.res.ok => Bars(st, c) # {} /\ Cardinality(Bars(st, c)) <= 2)
  \* a bar of our own choosing is near a quarter of the map
  /\ (c.op = "draw" /\ o.res.ok /\ c.len = <<>> => \A b \in Bars(st, c) : LET f == Part(b.len, Width(st.map, c.units)) IN Width(st.map, c.units) \in 1600..80000000 => f \in 1650..4000)
StOf(j) == j
CallOf(j) == j
=============================================================================
