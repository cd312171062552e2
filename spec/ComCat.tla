------------------------------- MODULE ComCat -------------------------------
(***************************************************************************)
(* What the web services of the USGS say about an event or a place, asked  *)
(* for once and remembered.                                                *)
(*   geo: 0, or the number of what is known about a place; info: likewise  *)
(*   of an event; file: what is in the local copy of the grid (0: there is *)
(*   none, 1: what was there before, 10 + k: the grid of event k)          *)
(* An answer of a server is "ok", an HTTP status that is an error, "down"  *)
(* (no connection), "cut" (it breaks off) or "garbled" (no JSON).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Makes, Asks, Geos, Events

R(ok) == [ok |-> ok, a |-> <<>>, b |-> <<>>, n |-> <<>>, log |-> <<>>]
N(ok, n) == [R(ok) EXCEPT !.n = n]

(* ---- how a question to a server ends: one more try when it is unavailable, or, if one likes, otherwise ---- *)
Fine(x) == x \in {"ok", "garbled"}
Nth(s, k) == IF k <= Len(s) THEN s[k] ELSE "down"
Ends(s) == IF Fine(Nth(s, 1)) THEN { <<Nth(s, 1), 1>> }
           ELSE IF Nth(s, 1) = "503" THEN { <<Nth(s, 2), 2>> }
           ELSE { <<Nth(s, 1), 1>>, <<Nth(s, 2), 2>> }
Good(e) == e[1] = "ok"

(* ---- requests: [kind, a: integers in its address, id, wait: whether there was a pause before, limit: a time limit] ---- *)
Req(kind, a, id, wait) == [kind |-> kind, a |-> a, id |-> id, wait |-> wait, limit |-> TRUE]
Reqs(kind, a, id, n) == [k \in 1..n |-> Req(kind, a, id, k = 2)]
Of(log, kind) == LET P(q) == q.kind = kind IN SelectSeq(log, P)

(* degrees times 100000, tenths of a kilometre, people *)
PlaceArgs(c) == <<c.lat, c.lon, IF c.radius = 0 THEN 5000 ELSE c.radius, IF c.pop = 0 THEN 1000 ELSE c.pop>>
RegionArgs(c) == <<c.lat, c.lon>>

(* ---- what is known ---- *)
Starts(id, s) == Len(s) <= Len(id) /\ SubSeq(id, 1, Len(s)) = s
SourceOf(id, ss) == LET K == { k \in 1..Len(ss) : Starts(id, ss[k]) }
                    IN ss[CHOOSE k \in K : \A j \in K : Len(ss[j]) <= Len(ss[k])]
Others(e) == LET P(i) == i # e.id IN SelectSeq(e.ids, P)
Answer(st, c) ==
  CASE c.op = "places" -> [R(TRUE) EXCEPT !.a = Geos[st.geo].places]
    [] c.op = "regions" -> [R(TRUE) EXCEPT !.a = Geos[st.geo].keys]
    [] c.op = "authority" -> [R(TRUE) EXCEPT !.a = IF Geos[st.geo].auth = <<>> THEN <<"US", "NA">> ELSE Geos[st.geo].auth]
    [] c.op = "ids" -> [R(TRUE) EXCEPT !.b = <<Events[st.info].id>> \o Others(Events[st.info])]
    [] c.op = "sources" -> LET e == Events[st.info]
                               o == Others(e)
                           IN [R(TRUE) EXCEPT !.b = <<SourceOf(e.id, e.sources)>> \o [k \in 1..Len(o) |-> SourceOf(o[k], e.sources)]]
    [] c.op = "params" -> LET e == Events[st.info] IN N(TRUE, <<e.days, e.secs, e.lat, e.lon, e.depth, e.mag>>)
    [] c.op = "place" -> [R(TRUE) EXCEPT !.a = <<Events[st.info].place>>]
    [] c.op = "tsunami" -> N(TRUE, <<Events[st.info].tsunami>>)
    [] OTHER -> [R(TRUE) EXCEPT !.a = <<Events[st.info].url>>]

O(st, res) == [st |-> st, res |-> res]
Outcomes(st, c) ==
  CASE c.op = "geo" ->
         { IF Good(x) /\ Good(y) THEN O([st EXCEPT !.geo = c.data], [R(TRUE) EXCEPT !.log = Reqs("places", PlaceArgs(c), <<>>, x[2]) \o Reqs("regions", RegionArgs(c), <<>>, y[2])])
           ELSE O(st, [R(FALSE) EXCEPT !.log = (IF Good(y) \/ ~Good(x) THEN Reqs("places", PlaceArgs(c), <<>>, x[2]) ELSE <<>>)
                                               \o (IF ~Good(y) \/ Good(x) THEN Reqs("regions", RegionArgs(c), <<>>, y[2]) ELSE <<>>)])
           : x \in Ends(c.places), y \in Ends(c.regions) }
    [] c.op = "info" ->
         { O(IF Good(x) THEN [st EXCEPT !.info = c.data] ELSE st, [R(Good(x)) EXCEPT !.log = Reqs("detail", <<>>, Events[c.data].ask, x[2])]) : x \in Ends(c.answers) }
    [] c.op = "grid" ->
         LET e == Events[st.info]
         IN IF ~e.shake THEN { O(st, R(TRUE)) }                                  \* there is none: nothing is said
            ELSE IF c.to = "none" THEN { O(st, [R(TRUE) EXCEPT !.a = <<"url">>]) }
            ELSE { LET log == Reqs("grid", <<>>, e.id, x[2])
                   IN IF Fine(x[1]) /\ c.to = "file" THEN O([st EXCEPT !.file = 10 + st.info], [R(TRUE) EXCEPT !.a = <<"file">>, !.log = log])
                      ELSE O(st, [R(TRUE) EXCEPT !.log = log]) : x \in Ends(c.answers) }
    [] OTHER -> { O(st, Answer(st, c)) }

(* the order of requests to the two servers for a place, and whether the second is still asked when the first failed, do not matter *)
LogOk(c, want, got) ==
  IF c.op # "geo" THEN want.log = got.log \/ (c.op = "grid" /\ c.to = "nowhere" /\ got.log = <<>>)
  ELSE /\ \A q \in 1..Len(got.log) : got.log[q].kind \in {"places", "regions"}
       /\ LET p == Of(got.log, "places")
              r == Of(got.log, "regions")
              wp == Of(want.log, "places")
              wr == Of(want.log, "regions")
          IN IF want.ok THEN p = wp /\ r = wr
             ELSE \/ (p = wp /\ (r = <<>> \/ r \in { Reqs("regions", RegionArgs(c), <<>>, y[2]) : y \in Ends(c.regions) }) /\ ~\A x \in Ends(c.places) : Good(x) \/ x[2] # Len(p))
                  \/ (r = wr /\ (p = <<>> \/ p \in { Reqs("places", PlaceArgs(c), <<>>, x[2]) : x \in Ends(c.places) }) /\ ~\A y \in Ends(c.regions) : Good(y) \/ y[2] # Len(r))
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) : o.st = s2 /\ o.res.ok = r.ok /\ (r.ok => (o.res.a = r.a /\ o.res.b = r.b /\ o.res.n = r.n)) /\ LogOk(c, o.res, r)

Calls(st) == Makes \cup { c \in Asks : IF c.op \in {"places", "regions", "authority"} THEN st.geo > 0 ELSE st.info > 0 }
InitStates == { [geo |-> 0, info |-> 0, file |-> f] : f \in {0, 1} }
Inv(st) == st.geo \in 0..Len(Geos) /\ st.info \in 0..Len(Events)
StepInv(st, c, o) ==
  /\ (~o.res.ok => o.st = st)                                       \* nothing is known after a failure that was not before
  /\ (c.op \notin {"geo", "info"} => o.st.geo = st.geo /\ o.st.info = st.info)
  /\ (c.op \notin {"geo", "info", "grid"} => o.st = st /\ o.res.log = <<>>)   \* no server is asked again
  /\ (c.op = "sources" => Len(o.res.b) = 1 + Len(Others(Events[st.info])))
  /\ Len(o.res.log) <= 4
StOf(j) == j
CallOf(j) == j
=============================================================================
