------------------------------- MODULE Cities -------------------------------
(***************************************************************************)
(* A list of cities and the smaller ones made from it.                     *)
(*   there: whether there is one; cols: its columns, in their order        *)
(*   rows: [n: name, one string per character, lat, lon: half degrees,     *)
(*          pop, cap: 0, 1 or -1 (no such column), cc, x, y]               *)
(***************************************************************************)
EXTENDS Sines, FiniteSets, TLC
CONSTANTS Makes, Filters, Chars

R(ok, exc) == [ok |-> ok, exc |-> exc]
Has(st, col) == \E k \in 1..Len(st.cols) : st.cols[k] = col
Required == {"name", "lat", "lon"}
Among(cols) == { cols[k] : k \in 1..Len(cols) }
Abs(x) == IF x < 0 THEN -x ELSE x
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
Max(s) == CHOOSE x \in s : \A y \in s : x >= y
Lats(rows) == { rows[k].lat : k \in 1..Len(rows) }
Lons(rows) == { rows[k].lon : k \in 1..Len(rows) }
Bounds(rows) == IF rows = <<>> THEN <<>> ELSE <<Min(Lons(rows)), Max(Lons(rows)), Min(Lats(rows)), Max(Lats(rows))>>

(* ---- the file of GeoNames ---- *)
RECURSIVE Strip(_)
Strip(n) == IF n = <<>> THEN n ELSE IF n[1] = " " THEN Strip(Tail(n)) ELSE IF n[Len(n)] = " " THEN Strip(SubSeq(n, 1, Len(n) - 1)) ELSE n
Plain(n) == \A k \in 1..Len(n) : n[k] # "e'"          \* stands for a letter that is not ASCII
GeoCols == <<"name", "ccode", "lat", "lon", "iscap", "pop">>
GeoRow(l) == [n |-> Strip(l.n), lat |-> l.lat, lon |-> l.lon, pop |-> l.pop, cap |-> IF l.fc \in {"PPLC", "PPLA"} THEN 1 ELSE 0, cc |-> l.cc, x |-> 9999999, y |-> 9999999]
Geo(lines) == LET Good(l) == Plain(l.n) /\ Strip(l.n) # <<>>
                  g == SelectSeq(lines, Good)
              IN [k \in 1..Len(g) |-> GeoRow(g[k])]

(* ---- how far: haversines times 10^8 ---- *)
Hav(a, b, lat, lon) ==
  LET s == HalfSine(Abs(a - lat))
      t == HalfSine(Abs(b - lon))
      c == (Cosine(a) * Cosine(lat)) \div 100000
  IN s * s + (IF t < 1000 THEN (t * t * c) \div 1000 ELSE (((t * t) \div 100) * c) \div 10)
Near(row, c) ==                                        \* 1 within, -1 not, 0 too close to tell
  LET h == Hav(row.lat, row.lon, c.lat, c.lon)
      lim == HalfSine(c.k) * HalfSine(c.k)
      tol == lim \div 30 + 100
  IN IF h < lim - tol THEN 1 ELSE IF h > lim + tol THEN -1 ELSE 0

(* ---- names ---- *)
At(n, p, k) == \A j \in 1..Len(p) : p[j] = "." \/ p[j] = n[k + j - 1]
Matches(n, c) == \E k \in 1..(Len(n) - Len(c.body) + 1) :
  At(n, c.body, k) /\ (c.head => k = 1) /\ (c.tail => k + Len(c.body) - 1 = Len(n))
CharOrd(ch) == CHOOSE i \in 1..Len(Chars) : Chars[i] = ch
RECURSIVE Before(_, _)
Before(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                ELSE IF a[1] = b[1] THEN Before(Tail(a), Tail(b)) ELSE CharOrd(a[1]) < CharOrd(b[1])
Less(a, b, col) == CASE col = "name" -> Before(a.n, b.n)
                     [] col = "lat" -> a.lat < b.lat [] col = "lon" -> a.lon < b.lon
                     [] col = "pop" -> a.pop < b.pop [] col = "iscap" -> a.cap < b.cap
                     [] OTHER -> FALSE
RECURSIVE Sooner(_, _, _)
Sooner(a, b, by) == IF by = <<>> THEN FALSE ELSE Less(a, b, by[1]) \/ (~Less(b, a, by[1]) /\ Sooner(a, b, Tail(by)))
InOrder(rows, by, asc) == \A k \in 1..(Len(rows) - 1) : IF asc THEN ~Sooner(rows[k + 1], rows[k], by) ELSE ~Sooner(rows[k], rows[k + 1], by)
Count(rows, row) == Cardinality({ k \in 1..Len(rows) : rows[k] = row })
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Count(a, a[k]) = Count(b, a[k])
RECURSIVE Insert(_, _, _, _)
Insert(rows, r, by, asc) == IF rows = <<>> THEN <<r>>
  ELSE IF (IF asc THEN Sooner(r, rows[1], by) ELSE Sooner(rows[1], r, by)) THEN <<r>> \o rows
  ELSE <<rows[1]>> \o Insert(Tail(rows), r, by, asc)
RECURSIVE Sorted(_, _, _)
Sorted(rows, by, asc) == IF rows = <<>> THEN <<>> ELSE LET m == Len(rows) IN Insert(Sorted(SubSeq(rows, 1, m - 1), by, asc), rows[m], by, asc)

(* ---- grids: the cell of a row, counted from the south west; a city between two belongs to the one south or west of it ---- *)
Slot(v, lo, hi, n) == IF hi = lo \/ v = lo THEN 1 ELSE ((v - lo) * n + (hi - lo) - 1) \div (hi - lo)
OnEdge(v, lo, hi, n) == hi # lo /\ v # lo /\ v # hi /\ ((v - lo) * n) % (hi - lo) = 0
CellOf(row, b, c) == <<Slot(row.lon, b[1], b[2], c.nx), Slot(row.lat, b[3], b[4], c.ny)>>
Unclear(rows, b, c) == \E k \in 1..Len(rows) : OnEdge(rows[k].lon, b[1], b[2], c.nx) \/ OnEdge(rows[k].lat, b[3], b[4], c.ny)
Top(rows, n) == LET s == Sorted(rows, <<"pop">>, FALSE) IN SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Grid(rows, c) ==
  IF rows = <<>> THEN <<>> ELSE
  LET b == Bounds(rows)
      f[k \in 0..(c.nx * c.ny)] == IF k = 0 THEN <<>> ELSE
        LET cell == <<((k - 1) % c.nx) + 1, (k - 1) \div c.nx + 1>>
            Inside(r) == CellOf(r, b, c) = cell
        IN f[k - 1] \o Top(SelectSeq(rows, Inside), c.n)
  IN f[c.nx * c.ny]
GridOk(rows, out, c) ==
  /\ \A k \in 1..Len(out) : Count(out, out[k]) <= Count(rows, out[k])
  /\ Len(rows) <= c.n => Len(out) = Len(rows)
  /\ rows = <<>> => out = <<>>
  /\ rows # <<>> => LET b == Bounds(rows) IN
       IF Unclear(rows, b, c) THEN Len(out) <= c.n * c.nx * c.ny
       ELSE \A i \in 1..c.nx, j \in 1..c.ny :
              LET Inside(r) == CellOf(r, b, c) = <<i, j>>
                  all == SelectSeq(rows, Inside)
                  got == SelectSeq(out, Inside)
              IN /\ Len(got) = (IF Len(all) < c.n THEN Len(all) ELSE c.n)
                 /\ \A p \in 1..Len(all), q \in 1..Len(got) : Count(got, all[p]) < Count(all, all[p]) => all[p].pop <= got[q].pop

Only(st, T(_)) == [st EXCEPT !.rows = SelectSeq(st.rows, T)]
Outcomes(st, c) ==
  CASE c.op = "make" -> { IF Required \subseteq Among(c.cols) THEN [st |-> [there |-> TRUE, cols |-> c.cols, rows |-> c.rows], res |-> R(TRUE, "")]
                          ELSE [st |-> st, res |-> R(FALSE, "KeyError")] }
    [] c.op = "geonames" -> { [st |-> [there |-> TRUE, cols |-> GeoCols, rows |-> Geo(c.lines)], res |-> R(TRUE, "")] }
    [] ~st.there -> { [st |-> st, res |-> R(FALSE, "idle")] }
    [] c.op = "bounds" -> LET T(r) == c.b[1] < r.lon /\ r.lon <= c.b[2] /\ c.b[3] < r.lat /\ r.lat <= c.b[4] IN { [st |-> Only(st, T), res |-> R(TRUE, "")] }
    [] c.op = "radius" -> LET T(r) == Near(r, c) = 1 IN { [st |-> Only(st, T), res |-> R(TRUE, "")] }
    [] c.op = "population" -> LET T(r) == r.pop >= c.pop IN
         { IF ~Has(st, "pop") THEN [st |-> st, res |-> R(FALSE, "KeyError")]
           ELSE IF c.minpop >= c.pop THEN [st |-> st, res |-> R(FALSE, "ValueError")] ELSE [st |-> Only(st, T), res |-> R(TRUE, "")] }
    [] c.op = "grid" -> { IF ~Has(st, "pop") THEN [st |-> st, res |-> R(FALSE, "KeyError")]
                          ELSE [st |-> [st EXCEPT !.rows = Grid(st.rows, c)], res |-> R(TRUE, "")] }
    [] c.op = "name" -> LET T(r) == Matches(r.n, c) IN { [st |-> Only(st, T), res |-> R(TRUE, "")] }
    [] c.op = "sort" -> { IF Among(c.by) \subseteq Among(st.cols) THEN [st |-> [st EXCEPT !.rows = Sorted(st.rows, c.by, c.asc)], res |-> R(TRUE, "")]
                          ELSE [st |-> st, res |-> R(FALSE, "KeyError")] }
    [] c.op = "project" -> { [st |-> [st EXCEPT !.cols = IF Has(st, "x") THEN st.cols ELSE st.cols \o <<"x", "y">>,
                                                !.rows = [k \in 1..Len(st.rows) |-> [st.rows[k] EXCEPT !.x = st.rows[k].lon + 7, !.y = st.rows[k].lat - 3]]], res |-> R(TRUE, "")] }
    [] c.op \in {"reload", "look", "spoil"} -> { [st |-> st, res |-> R(TRUE, "")] }
RECURSIVE Kept(_, _, _)
Kept(rows, out, c) ==
  IF rows = <<>> THEN out = <<>>
  ELSE LET n == Near(rows[1], c)
           hit == out # <<>> /\ (IF out = <<>> THEN FALSE ELSE out[1] = rows[1])
       IN IF n = 1 THEN hit /\ Kept(Tail(rows), Tail(out), c)
          ELSE IF n = -1 THEN Kept(Tail(rows), out, c)
          ELSE IF hit /\ Kept(Tail(rows), Tail(out), c) THEN TRUE ELSE Kept(Tail(rows), out, c)
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
  /\ o.res.ok = r.ok /\ o.res.exc = r.exc
  /\ r.kept
  /\ o.st.there = s2.there /\ o.st.cols = s2.cols
  /\ IF ~r.ok THEN s2.rows = st.rows
     ELSE IF c.op = "radius" THEN Kept(st.rows, s2.rows, c)
     ELSE IF c.op = "grid" THEN GridOk(st.rows, s2.rows, c)
     ELSE IF c.op = "sort" THEN Same(st.rows, s2.rows) /\ InOrder(s2.rows, c.by, c.asc)
     ELSE o.st.rows = s2.rows
  /\ (c.op = "look" /\ r.ok) => /\ r.len = Len(st.rows) /\ r.bounds = Bounds(st.rows)
                                /\ r.at = [k \in 1..Len(st.rows) |-> <<st.rows[k].lat, st.rows[k].lon, st.rows[k].n>>]

Calls(st) == Makes \cup (IF st.there THEN Filters ELSE {})
InitStates == { [there |-> FALSE, cols |-> <<>>, rows |-> <<>>] }
Inv(st) == st.there => /\ Required \subseteq Among(st.cols)
                       /\ \A k \in 1..Len(st.rows) : (st.rows[k].pop >= 0) <=> Has(st, "pop")
StepInv(st, c, o) ==
  /\ (c.op \in {"bounds", "radius", "population", "grid", "name"} /\ o.res.ok /\ st.there) =>
       /\ Len(o.st.rows) <= Len(st.rows)
       /\ \A k \in 1..Len(o.st.rows) : Count(o.st.rows, o.st.rows[k]) <= Count(st.rows, o.st.rows[k])
       /\ c.op # "grid" => \A p \in Outcomes(o.st, c) : p.st = o.st                 \* once is as good as twice
  /\ (c.op = "grid" /\ o.res.ok) => GridOk(st.rows, o.st.rows, c)
  /\ (c.op = "sort" /\ o.res.ok) => Same(st.rows, o.st.rows) /\ InOrder(o.st.rows, c.by, c.asc)
StOf(j) == j
CallOf(j) == j
=============================================================================
