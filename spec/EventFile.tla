----------------------------- MODULE EventFile -----------------------------
(***************************************************************************)
(* event.xml and source.txt: what a written event file holds, what reading *)
(* it gives back, and what an origin made from both is.                    *)
(*                                                                         *)
(* An event: lat, lon in 1/100000 degree, depth and mag in 1/100, t = year *)
(* .. microsecond, strings as tokens ("absent" when an optional one is not *)
(* given).  A file also has a form: how its time is spelled ("sec",        *)
(* "frac", the old "parts", or one that cannot be read), and the           *)
(* attributes it lacks.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Writes, Hands, Sources, Base
NoFile == [there |-> FALSE]
RoundTen(x) == IF x < 0 THEN -(((5 - x) \div 10) * 10) ELSE ((x + 5) \div 10) * 10
Trunc(t) == [t EXCEPT ![7] = 0]
Written(e) ==
  [there |-> TRUE, lat |-> RoundTen(e.lat), lon |-> RoundTen(e.lon), depth |-> RoundTen(e.depth), mag |-> RoundTen(e.mag),
   t |-> Trunc(e.t), id |-> e.id, netid |-> e.netid, network |-> e.network, loc |-> e.loc,
   mech |-> e.mech, type |-> "absent", ref |-> e.ref, pc |-> e.pc,
   etype |-> IF e.etype = "absent" THEN "ACTUAL" ELSE e.etype, form |-> "sec", lacks |-> {}]
Known == {"SS", "NM", "RS", "ALL"}

R(ok, v, exc) == [ok |-> ok, v |-> v, exc |-> exc]
Write(st, c) == IF c.bad # "" \/ c.e.etype \notin {"absent", "ACTUAL", "SCENARIO"}
                THEN { [st |-> st, res |-> R(FALSE, "none", "message")] }
                ELSE { [st |-> [st EXCEPT !.file = Written(c.e)], res |-> R(TRUE, "none", "")] }
(* reading *)
Content(f, via) ==
  [lat |-> f.lat, lon |-> f.lon, depth |-> f.depth, mag |-> f.mag, t |-> f.t, id |-> f.id, netid |-> f.netid,
   network |-> IF f.network = "absent" THEN "empty" ELSE f.network, loc |-> f.loc, mech |-> f.mech, type |-> f.type,
   ref |-> f.ref, pc |-> IF f.pc = "absent" /\ via = "path" THEN f.id ELSE f.pc]
ReadFault(f) == (IF f.lacks # {} THEN {"KeyError"} ELSE {}) \cup (IF f.form \notin {"sec", "frac", "parts"} THEN {"ValueError"} ELSE {})
Fails(X) == { R(FALSE, "none", x) : x \in X }
Reads(f, via) == IF ~f.there THEN Fails({"OSError"})
                 ELSE IF ReadFault(f) # {} THEN Fails(ReadFault(f))
                 ELSE { R(TRUE, Content(f, via), "") }
(* source.txt: a sequence of [k, v]; the last entry for a key counts *)
Keys(src) == { src[k].k : k \in 1..Len(src) }
Last(src, key) == src[CHOOSE n \in 1..Len(src) : src[n].k = key /\ \A m \in n+1..Len(src) : src[m].k # key].v
Over(ev, src) == [k \in DOMAIN ev \cup Keys(src) |-> IF k \in Keys(src) THEN Last(src, k) ELSE ev[k]]
Parsed(src) == [key \in Keys(src) \cup {"n"} |-> IF key = "n" THEN Cardinality(Keys(src)) ELSE Last(src, key)]
(* the origin *)
MechOf(e) == LET m == IF e.mech # "absent" THEN e.mech ELSE e.type IN IF m \in {"absent", "empty"} THEN "ALL" ELSE m
DefRake(m) == CASE m = "SS" -> 0 [] m = "NM" -> -9000 [] m = "RS" -> 9000 [] m = "ALL" -> 0
OriginFault(e) == (IF MechOf(e) \notin Known \/ e.lat < -9000000 \/ e.lat > 9000000 \/ e.lon < -18000000 \/ e.lon > 18000000
                   THEN {"ValueError"} ELSE {})
OriginOf(e) == [k \in (DOMAIN e \ {"type"}) \cup {"rake"} |->
                 IF k = "mech" THEN MechOf(e) ELSE IF k = "rake" THEN (IF "rake" \in DOMAIN e THEN e.rake ELSE DefRake(MechOf(e))) ELSE e[k]]
Origins(f, via, src) == IF ~f.there THEN Fails({"OSError"})
                   ELSE IF ReadFault(f) # {} THEN Fails(ReadFault(f))
                   ELSE LET e == Over(Content(f, via), src)
                        IN IF OriginFault(e) # {} THEN Fails(OriginFault(e)) ELSE { R(TRUE, OriginOf(e), "") }
Same(st, rs) == { [st |-> st, res |-> r] : r \in rs }
Outcomes(st, c) ==
  CASE c.op = "write" -> Write(st, c)
    [] c.op = "hand" -> { [st |-> [st EXCEPT !.file = c.f], res |-> R(TRUE, "none", "")] }
    [] c.op = "read" -> Same(st, Reads(st.file, c.via))
    [] c.op = "source" -> Same(st, { R(TRUE, Parsed(c.src), "") })
    [] c.op = "origin" -> Same(st, Origins(st.file, c.via, c.src))
Calls(st) == { [op |-> "write", e |-> w[1], bad |-> w[2]] : w \in Writes }
  \cup { [op |-> "hand", f |-> f] : f \in Hands }
  \cup { [op |-> "read", via |-> v] : v \in {"path", "object"} }
  \cup { [op |-> "source", via |-> v, src |-> s] : v \in {"path", "object"}, s \in Sources }
  \cup { [op |-> "origin", via |-> v, src |-> s] : v \in {"path", "object"}, s \in Sources \cup {<<>>} }
InitStates == { [file |-> NoFile] }
Abs(x) == IF x < 0 THEN -x ELSE x
Inv(st) == st.file.there => \A k \in {"lat", "lon", "depth", "mag"} : st.file[k] \in Int
StepInv(st, c, o) ==
  /\ ~o.res.ok => o.st = st
  /\ c.op \in {"read", "source", "origin"} => o.st = st
  (* what was written is what is read, to within the precision of the file *)
  /\ c.op = "write" /\ o.res.ok =>
       LET r == (CHOOSE x \in Reads(o.st.file, "object") : TRUE)
       IN r.ok /\ (\A k \in {"lat", "lon", "depth", "mag"} : Abs(r.v[k] - c.e[k]) <= 5)
          /\ (\A k \in {"id", "netid", "network", "loc", "mech", "ref", "pc"} : r.v[k] = c.e[k])
  /\ c.op = "origin" /\ o.res.ok => o.res.v.mech \in Known /\ \A k \in Keys(c.src) \ {"type", "mech"} : o.res.v[k] = Last(c.src, k)
SetOf(q) == { q[k] : k \in 1..Len(q) }
FileOf(j) == IF j.there THEN [j EXCEPT !.lacks = SetOf(@)] ELSE j
StOf(j) == [file |-> FileOf(j.file)]
CallOf(j) == IF j.op = "hand" THEN [j EXCEPT !.f = FileOf(@)] ELSE j
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
  /\ o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc
  /\ o.res.v = r.v
  /\ r.kept
=============================================================================
