------------------------------ MODULE TimeZone ------------------------------
(***************************************************************************)
(* Local time at a place: from a map of zones (LocalTime), from the map    *)
(* the package comes with (LocalTimeNE) and from a raster (TimeConversion).*)
(*   map: the zones of the map, [tz, box <<west, east, south, north>>] in  *)
(*        degrees, first one first; or the package's own; or none          *)
(*   at:  where and when the local time is for, <<lat, lon, t>>, place in  *)
(*        quarter degrees, t UTC as <<y, m, d, h, min>>                    *)
(*   ras: [left, top, res, cells, cross]: corner and resolution in quarter *)
(*        degrees, rows of cells from the north                            *)
(***************************************************************************)
EXTENDS Calendar
CONSTANTS Maps, Rasters, Places, Lookups

R(ok, exc) == [ok |-> ok, exc |-> exc]

(* ---- minutes off UTC; minutes of a time since the year began ---- *)
(* days from 1 March 2001 and the minute of the day: instants near each other *)
Day(t) == Ordinal(t[1], t[2], t[3])
Minute(t) == t[4] * 60 + t[5]
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])                     \* <<day, minute>>
Inst(t) == <<Day(t), Minute(t)>>
Plus(i, m) == <<i[1] + (IF i[2] + m < 0 THEN -1 ELSE IF i[2] + m >= 1440 THEN 1 ELSE 0), (i[2] + m) % 1440>>
(* the n'th Sunday on or after a day of a year *)
Sunday(y, m, d) == LET o == Ordinal(y, m, d) IN o + (6 - ((o - 1) % 7))
(* start and end of summer time in UTC (2007 and later; Australia 2008) *)
Us(y, std) == <<Plus(<<Sunday(y, 3, 8), 120>>, -std), Plus(<<Sunday(y, 11, 1), 120>>, -std - 60)>>
Eu(y) == <<<<Sunday(y, 3, 25), 60>>, <<Sunday(y, 10, 25), 60>>>>
Au(y, std) == <<Plus(<<Sunday(y, 10, 1), 120>>, -std), Plus(<<Sunday(y, 4, 1), 180>>, -std - 60)>>
Std == [UTC |-> 0, ET |-> -300, MT |-> -420, HT |-> -600, CET |-> 60, IST |-> 330, NPT |-> 345, JST |-> 540, SAST |-> 120, AET |-> 600, W5 |-> -300, E3 |-> 180, P9 |-> 540]
Rule == [ET |-> "us", MT |-> "us", CET |-> "eu", AET |-> "au"]
Summer(tz, i, y) ==                                                               \* y: the UTC year
  IF tz \notin DOMAIN Rule THEN FALSE
  ELSE LET w == IF Rule[tz] = "us" THEN Us(y, Std[tz]) ELSE IF Rule[tz] = "eu" THEN Eu(y) ELSE Au(y, Std[tz])
       IN IF Rule[tz] = "au" THEN ~Less(i, w[1]) \/ Less(i, w[2])                \* over the turn of the year
          ELSE ~Less(i, w[1]) /\ Less(i, w[2])
Off(tz, i) == Std[tz] + (IF Summer(tz, i, FromOrdinal(i[1])[1]) THEN 60 ELSE 0)
Civil(i) == FromOrdinal(i[1]) \o <<i[2] \div 60, i[2] % 60>>
Local(tz, t) == Civil(Plus(Inst(t), Off(tz, Inst(t))))
(* standard time where a local time comes twice or never *)
Utc(tz, t) == LET std == Plus(Inst(t), -Std[tz])
                  sum == Plus(Inst(t), -Std[tz] - 60)
              IN Civil(IF Off(tz, std) = Std[tz] THEN std
                       ELSE IF Off(tz, sum) = Std[tz] + 60 THEN sum ELSE std)

(* ---- the zone of a place ---- *)
(* the package's map: well inside of known zones *)
Own == << <<158, -420, "MT">>, <<-34, 120, "SAST">>, <<140, 558, "JST">>, <<84, -630, "HT">>, <<195, 10, "CET">>, <<-5, 147, "E3">>,
          <<162, -296, "ET">>, <<-132, 600, "AET">>, <<112, 340, "NPT">> >>
Within(b, lat, lon) == 4 * b[1] < lon /\ lon < 4 * b[2] /\ 4 * b[3] < lat /\ lat < 4 * b[4]
Found(map, lat, lon) ==
  IF map.own THEN LET k == CHOOSE k \in 1..Len(Own) : Own[k][1] = lat /\ Own[k][2] = lon IN Own[k][3]
  ELSE LET ks == { k \in 1..Len(map.zones) : Within(map.zones[k].box, lat, lon) }
       IN IF ks = {} THEN "" ELSE map.zones[CHOOSE k \in ks : \A j \in ks : k <= j].tz
Nautical(lon) == LET h == (lon + 30) \div 60 IN 60 * h                            \* to the nearest hour; lon never half way
OffAt(map, at) == LET tz == Found(map, at[1], at[2]) IN IF tz = "" THEN Nautical(at[2]) ELSE Off(tz, Inst(at[3]))

(* ---- rasters ---- *)
Rows(ras) == Len(ras.cells)
Cols(ras) == Len(ras.cells[1])
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
East(ras, lon) ==          \* quarter degrees from the left edge, of the nearest place on the raster
  LET w == Cols(ras) * ras.res
      e == IF ras.cross THEN (lon - ras.left) % 1440 ELSE lon - ras.left
  IN IF ras.cross THEN (IF e <= w THEN e ELSE IF e - w <= 1440 - e THEN w ELSE 0) ELSE Clip(e, 0, w)
South(ras, lat) == Clip(ras.top - lat, 0, Rows(ras) * ras.res)
Index(v, res, how, n) ==
  LET f == v \div res
      r == v % res
      k == CASE how = "floor" -> f
             [] how = "ceil" -> IF r = 0 THEN f ELSE f + 1
             [] how = "round" -> IF 2 * r < res \/ (2 * r = res /\ f % 2 = 0) THEN f ELSE f + 1
  IN IF k >= n THEN n - 1 ELSE k
(* a place as far from either edge may go to either *)
Tie(ras, lon) == LET w == Cols(ras) * ras.res  e == (lon - ras.left) % 1440 IN ras.cross /\ e > w /\ e - w = 1440 - e
Cell(ras, lat, lon, how) == ras.cells[Index(South(ras, lat), ras.res, how, Rows(ras)) + 1][Index(East(ras, lon), ras.res, how, Cols(ras)) + 1]
Hows == {"floor", "ceil", "round"}

NoMap == [own |-> FALSE, zones |-> <<>>, there |-> FALSE]
NoRas == [left |-> 0, top |-> 0, res |-> 1, cells |-> <<>>, cross |-> FALSE]
Outcomes(st, c) ==
  CASE c.op = "map" -> { [st |-> [st EXCEPT !.map = [own |-> c.own, zones |-> c.zones, there |-> TRUE], !.at = c.at], res |-> R(TRUE, "")] }
    [] c.op = "update" -> { IF st.map.there THEN [st |-> [st EXCEPT !.at = c.at], res |-> R(TRUE, "")] ELSE [st |-> st, res |-> R(FALSE, "idle")] }
    [] c.op = "ask" -> { [st |-> st, res |-> R(st.map.there, IF st.map.there THEN "" ELSE "idle")] }
    [] c.op = "raster" -> { IF c.lacks = "" THEN [st |-> [st EXCEPT !.ras = c.ras], res |-> R(TRUE, "")] ELSE [st |-> st, res |-> R(FALSE, "RequiredArgumentError")] }
    [] c.op = "look" -> { [st |-> st, res |-> IF st.ras.cells = <<>> THEN R(FALSE, "idle") ELSE IF c.how \notin Hows THEN R(FALSE, "UnsupportedArgumentError") ELSE R(TRUE, "")] }
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
  /\ o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc
  /\ (c.op \in {"map", "update", "ask"} /\ r.ok) =>
       LET tz == Found(s2.map, s2.at[1], s2.at[2])
           m == OffAt(s2.map, s2.at)
       IN r.tz = (IF tz = "" THEN "undefined" ELSE tz) /\ r.off = m /\ r.local = Civil(Plus(Inst(s2.at[3]), m))
  /\ (c.op = "look" /\ r.ok /\ ~Tie(st.ras, c.lon)) =>
       LET tz == Cell(st.ras, c.lat, c.lon, c.how)
       IN CASE c.what = "code" -> r.tz = tz
            [] c.what = "local" -> r.local = Local(tz, c.t) /\ r.off = Off(tz, Inst(c.t))
            [] c.what = "utc" -> r.local = Utc(tz, c.t) /\ r.off = 0
Calls(st) == Maps \cup Rasters \cup (IF st.map.there THEN Places \cup {[op |-> "ask"]} ELSE {}) \cup (IF st.ras.cells = <<>> THEN {} ELSE Lookups)
InitStates == { [map |-> NoMap, at |-> <<>>, ras |-> NoRas] }
Inv(st) == /\ st.map.there => LET m == OffAt(st.map, st.at) IN m >= -720 /\ m <= 840
           /\ st.ras.cells # <<>> => \A how \in Hows : Cell(st.ras, st.ras.top, st.ras.left, how) = st.ras.cells[1][1]
StepInv(st, c, o) ==
  /\ c.op \in {"ask", "look"} => o.st = st
  /\ (c.op = "look" /\ o.res.ok) => LET tz == Cell(st.ras, c.lat, c.lon, c.how) IN
       (* there and back, but for the hour that comes twice *)
       /\ Utc(tz, Local(tz, c.t)) \in { c.t, Civil(Plus(Inst(c.t), 60)) }
       /\ Off(tz, Inst(c.t)) \in { Std[tz], Std[tz] + 60 }
StOf(j) == j
CallOf(j) == j
=============================================================================
