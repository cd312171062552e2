------------------------------ MODULE Compass ------------------------------
(***************************************************************************)
(* The compass point nearest to an azimuth, or to the direction of one     *)
(* place from another.  Nothing is kept from one question to the next.     *)
(***************************************************************************)
EXTENDS Sines, TLC
CONSTANTS Asks

R(ok, exc, text) == [ok |-> ok, exc |-> exc, text |-> text]
Short == <<"N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW">>
Long == <<"North", "North-northeast", "Northeast", "East-northeast", "East", "East-southeast", "Southeast", "South-southeast",
          "South", "South-southwest", "Southwest", "West-southwest", "West", "West-northwest", "Northwest", "North-northwest">>
Many == [cardinal |-> 4, intercardinal |-> 8, meteorological |-> 16]
Name(k, c) == LET i == 1 + k * (16 \div Many[c.resolution]) IN IF c.format = "long" THEN Long[i] ELSE Short[i]
Points(c) == 0..(Many[c.resolution] - 1)

(* the azimuth in eightieths of a degree, points 360/n apart *)
Turn == 28800
Off(a, b) == LET d == (a - b) % Turn IN IF 2 * d > Turn THEN Turn - d ELSE d
Nearest(c, a) == { k \in Points(c) : \A j \in Points(c) : Off(a, k * (Turn \div Many[c.resolution])) <= Off(a, j * (Turn \div Many[c.resolution])) }

(* sine and cosine, times 10000, of quarter degrees *)
Sin(q) == LET r == q % 1440
          IN IF r <= 360 THEN Table[1 + r] ELSE IF r <= 720 THEN Table[1 + 720 - r] ELSE IF r <= 1080 THEN -Table[1 + r - 720] ELSE -Table[1 + 1440 - r]
Cos(q) == Sin(q + 360)
(* north and east of the way from the first place to the second, times 10000; places in half degrees *)
Way(c) == LET d == 2 * (c.lon2 - c.lon1)
              a == 2 * c.lat1
              b == 2 * c.lat2
          IN << (Cos(a) * Sin(b) - ((Sin(a) * Cos(b)) \div 10000) * Cos(d)) \div 10000, (Sin(d) * Cos(b)) \div 10000 >>
Vague(v) == v[1] \in -30..30 /\ v[2] \in -30..30
Blur == 40000          \* four units of the way either side
Within(c, k, v) ==
  LET n == Many[c.resolution]
      lo == 4 * k * (360 \div n) - (720 \div n) + (IF n = 16 THEN 2 * k ELSE 0)      \* quarter degrees; 22.5 is 90 of them
      hi == lo + 2 * (720 \div n)
  IN Cos(lo) * v[2] - Sin(lo) * v[1] >= -Blur /\ Sin(hi) * v[1] - Cos(hi) * v[2] >= -Blur /\ Cos((lo + hi) \div 2) * v[1] + Sin((lo + hi) \div 2) * v[2] > 0
Answers(c) ==
  IF c.op = "azimuth" THEN { Name(k, c) : k \in Nearest(c, c.a) }
  ELSE LET v == Way(c) IN IF Vague(v) THEN { Name(k, c) : k \in Points(c) } ELSE { Name(k, c) : k \in { j \in Points(c) : Within(c, j, v) } }
Known(c) == c.resolution \in DOMAIN Many /\ c.format \in {"short", "long"}
Outcomes(st, c) == IF ~Known(c) THEN { [st |-> st, res |-> R(FALSE, "KeyError", "")] }
                   ELSE { [st |-> st, res |-> R(TRUE, "", t)] : t \in Answers(c) }
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) : o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc /\ o.res.text = r.text
Calls(st) == Asks
InitStates == { [n |-> 0] }
Inv(st) == TRUE
StepInv(st, c, o) == Known(c) => Answers(c) # {}
StOf(j) == j
CallOf(j) == j
=============================================================================
