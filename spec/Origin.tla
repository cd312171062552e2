------------------------------- MODULE Origin -------------------------------
(***************************************************************************)
(* An earthquake origin: what makes an event dictionary acceptable, which  *)
(* mechanism, rake and dip the origin has, and how setMechanism changes    *)
(* them.  Angles are integers: hundredths of a degree.                     *)
(*                                                                         *)
(* An event is [missing, id, lat, lon, mech, type, rk, rake]:              *)
(*   missing  the required keys it lacks                                   *)
(*   id       "str", "none" or "int"                                       *)
(*   mech, type  "absent", "" or a mechanism name                          *)
(*   rk       "no" rake, a "num"ber, or something that is not one ("bad")  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Missing, Ids, Lats, Lons, Mechs, Types, Rakes, SetMechs, SetRakes, SetDips
Required == {"id", "netid", "network", "lat", "lon", "depth", "locstring", "mag", "time"}
Known == {"SS", "NM", "RS", "ALL"}
None == 9999999
R(ok, exc) == [ok |-> ok, exc |-> exc]
Good == R(TRUE, "")

DefRake(m) == CASE m = "SS" -> 0 [] m = "NM" -> -9000 [] m = "RS" -> 9000 [] m = "ALL" -> 0
SetRake(m) == CASE m = "SS" -> 0 [] m = "NM" -> -9000 [] m = "RS" -> 9000 [] m = "ALL" -> 4500
SetDip(m) == CASE m = "SS" -> 9000 [] m = "NM" -> 5000 [] m = "RS" -> 4000 [] m = "ALL" -> 9000

(* the mechanism an event names; an older event may say "type" instead *)
Named(ev) == IF ev.mech # "absent" THEN ev.mech ELSE ev.type
MechOf(ev) == IF Named(ev) \in {"absent", ""} THEN "ALL" ELSE Named(ev)
Mechanisms(ev) == {MechOf(ev)} \cup (IF ev.mech = "" /\ ev.type \in Known THEN {ev.type} ELSE {})
Faults(ev) ==
  (IF ev.missing # {} THEN {"KeyError"} ELSE {})
  \cup (IF "id" \notin ev.missing /\ ev.id = "int" THEN {"TypeError"} ELSE {})
  \cup (IF "lat" \notin ev.missing /\ (ev.lat > 9000 \/ ev.lat < -9000) THEN {"ValueError"} ELSE {})
  \cup (IF "lon" \notin ev.missing /\ (ev.lon > 18000 \/ ev.lon < -18000) THEN {"ValueError"} ELSE {})
  \cup (IF MechOf(ev) \notin Known THEN {"ValueError"} ELSE {})
  \cup (IF ev.rk = "bad" THEN {"ValueError", "TypeError"} ELSE {})
New(st, ev) ==
  IF Faults(ev) # {} THEN { [st |-> st, res |-> R(FALSE, x)] : x \in Faults(ev) }
  ELSE { [st |-> [made |-> TRUE, mech |-> m, rake |-> IF ev.rk = "num" THEN ev.rake ELSE DefRake(m), dip |-> None],
          res |-> Good] : m \in Mechanisms(ev) }

Wrap(r) == IF r < -18000 THEN r + 36000 ELSE IF r > 18000 THEN r - 36000 ELSE r
SetMech(st, c) ==
  LET good == c.mech \in Known /\ (c.dip = None \/ (c.dip >= 0 /\ c.dip <= 9000))
      rk == IF c.rake = None THEN SetRake(c.mech) ELSE Wrap(c.rake)
      done == [st |-> [st EXCEPT !.mech = c.mech, !.rake = rk, !.dip = IF c.dip = None THEN SetDip(c.mech) ELSE c.dip],
               res |-> Good]
      fail == [st |-> st, res |-> R(FALSE, "ValueError")]
  IN IF ~good THEN {fail}
     ELSE IF c.rake = None \/ (c.rake >= -36000 /\ c.rake <= 36000) THEN {done}
     ELSE IF c.rake < -54000 \/ c.rake > 54000 THEN {fail}
     ELSE {done, fail}      \* outside the documented range, yet one turn brings it back
Outcomes(st, c) == IF c.op = "new" THEN New(st, c.ev) ELSE SetMech(st, c)

Plain == [missing |-> {}, id |-> "str", lat |-> 3412, lon |-> -11837, mech |-> "absent", type |-> "absent", rk |-> "no", rake |-> 0]
Events ==
  { [Plain EXCEPT !.missing = {m}] : m \in Missing } \cup { [Plain EXCEPT !.missing = Missing] }
  \cup { [Plain EXCEPT !.id = i] : i \in Ids }
  \cup { [Plain EXCEPT !.lat = a, !.lon = o] : a \in Lats, o \in Lons }
  \cup { [Plain EXCEPT !.mech = m, !.type = t, !.rk = k[1], !.rake = k[2]] : m \in Mechs, t \in Types, k \in Rakes }
Again == { [Plain EXCEPT !.mech = "NM"], [Plain EXCEPT !.lat = 9001], [Plain EXCEPT !.missing = {"mag"}] }
Calls(st) == { [op |-> "new", ev |-> e] : e \in IF st.made THEN Again ELSE Events }
  \cup (IF ~st.made THEN {} ELSE { [op |-> "set", mech |-> m, rake |-> r, dip |-> d] : m \in SetMechs, r \in SetRakes, d \in SetDips })
InitStates == { [made |-> FALSE, mech |-> "", rake |-> None, dip |-> None] }
Inv(st) == st.made => st.mech \in Known /\ st.rake # None
StepInv(st, c, o) ==
  /\ ~o.res.ok => o.st = st
  /\ c.op = "set" /\ o.res.ok => o.st.rake \in -18000..18000 /\ o.st.dip \in 0..9000 /\ o.st.mech = c.mech
  /\ c.op = "set" /\ o.res.ok /\ c.rake # None => \E k \in {-1, 0, 1} : o.st.rake = c.rake + k * 36000
  /\ c.op = "new" /\ c.ev.missing # {} => ~o.res.ok
SetOf(q) == { q[k] : k \in 1..Len(q) }
StOf(j) == [made |-> j.made, mech |-> j.mech, rake |-> j.rake, dip |-> j.dip]
CallOf(j) == IF j.op = "new" THEN [j EXCEPT !.ev.missing = SetOf(@)] ELSE j
(* every field of the event is an attribute of the origin, and the hypocentre is the event's *)
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
  /\ o.res.ok = r.ok /\ o.res.exc = r.exc /\ o.st = s2
  /\ r.ok => r.kept /\ r.hypo
=============================================================================
