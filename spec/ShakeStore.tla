----------------------------- MODULE ShakeStore -----------------------------
(***************************************************************************)
(* ShakeMap containers: metadata slots that are replaced as a whole, and   *)
(* intensity measure layers of one data type per file.                     *)
(*                                                                         *)
(* slots  what each metadata slot holds, 0 being nothing                   *)
(* dtype  "", "points" or "grid": decided by the first layer stored        *)
(* imts   the layers [c |-> component, i |-> IMT, v |-> value]             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Slots, Comps, Imts, Vals, Base
AllSlots == {"config", "rupture", "stations", "history", "info"}
Checked == {"rupture", "stations"}     \* slots that insist on a dictionary
Is(e, c, i) == e.c = c /\ e.i = i
Has(st, c, i) == \E e \in st.imts : Is(e, c, i)
Val(st, c, i) == (CHOOSE e \in st.imts : Is(e, c, i)).v
R(ok, v, exc) == [ok |-> ok, v |-> v, exc |-> exc]
Good == R(TRUE, 0, "")
One(st, r) == { [st |-> st, res |-> r] }

(* what asking for something that was never stored gives *)
Absent(s) == CASE s = "history" -> R(TRUE, 0, "")
               [] s = "info" -> R(FALSE, 0, "LookupError")
               [] OTHER -> R(FALSE, 0, "AttributeError")

SetLayer(st, c, t) ==
  IF st.dtype # "" /\ st.dtype # t THEN One(st, R(FALSE, 0, "TypeError"))
  ELSE IF c.bad = "shape" THEN One(st, R(FALSE, 0, "ValueError"))
  ELSE IF Has(st, c.c, c.i) THEN One(st, R(FALSE, 0, IF c.bad = "" THEN "LookupError" ELSE "any"))
  ELSE IF c.bad # "" THEN One(st, R(FALSE, 0, "any"))
  ELSE One([st EXCEPT !.dtype = t, !.imts = @ \cup {[c |-> c.c, i |-> c.i, v |-> c.v]}], Good)
GetLayer(st, c, t) ==
  IF st.dtype # t THEN One(st, R(FALSE, 0, "TypeError"))
  ELSE IF Has(st, c.c, c.i) THEN One(st, R(TRUE, Val(st, c.c, c.i), ""))
  ELSE One(st, R(FALSE, 0, "LookupError"))

Outcomes(st, c) ==
  CASE c.op = "put" -> IF c.bad = "type" THEN One(st, R(FALSE, 0, "TypeError"))
                       ELSE IF c.bad # "" THEN One(st, R(FALSE, 0, "any"))
                       ELSE One([st EXCEPT !.slots[c.s] = c.v], Good)
    [] c.op = "take" -> One(st, IF st.slots[c.s] = 0 THEN Absent(c.s) ELSE R(TRUE, st.slots[c.s], ""))
    [] c.op = "setgrid" -> SetLayer(st, c, "grid")
    [] c.op = "setpoints" -> SetLayer(st, c, "points")
    [] c.op = "getgrid" -> GetLayer(st, c, "grid")
    [] c.op = "getpoints" -> GetLayer(st, c, "points")
    [] c.op = "drop" ->
         LET st2 == [st EXCEPT !.imts = { e \in @ : e.i # c.i }]
         IN IF \E e \in st.imts : e.i = c.i THEN One(st2, Good)
            ELSE { [st |-> st, res |-> Good], [st |-> st, res |-> R(FALSE, 0, "LookupError")] }
    [] c.op = "declare" ->
         IF c.t \notin {"points", "grid"} \/ (st.dtype # "" /\ st.dtype # c.t) THEN One(st, R(FALSE, 0, "TypeError"))
         ELSE One([st EXCEPT !.dtype = c.t], Good)
    [] c.op \in {"reopen", "meddle"} -> One(st, Good)

Calls(st) ==
  UNION { { [op |-> "put", s |-> s, v |-> v, bad |-> b] : v \in Vals, b \in {"", "json"} \cup (IF s \in Checked THEN {"type"} ELSE {}) }
          \cup { [op |-> "take", s |-> s] } : s \in Slots }
  \cup { [op |-> "setgrid", c |-> c, i |-> i, v |-> v, bad |-> b] : c \in Comps, i \in Imts, v \in Vals, b \in {"", "value", "meta"} }
  \cup { [op |-> "setpoints", c |-> c, i |-> i, v |-> v, bad |-> b] : c \in Comps, i \in Imts, v \in Vals, b \in {"", "value", "meta", "shape"} }
  \cup { [op |-> o, c |-> c, i |-> i] : o \in {"getgrid", "getpoints"}, c \in Comps, i \in Imts }
  \cup { [op |-> "drop", i |-> i] : i \in Imts }
  \cup (IF Imts = {} THEN {} ELSE { [op |-> "declare", t |-> t] : t \in {"points", "grid", "image"} })
  \cup { [op |-> "reopen"], [op |-> "meddle"] }
InitStates == { [slots |-> [s \in AllSlots |-> 0], dtype |-> "", imts |-> {}, base |-> Base] }
Inv(st) == /\ st.imts # {} => st.dtype # ""
           /\ \A a, b \in st.imts : Is(a, b.c, b.i) => a = b
StepInv(st, c, o) ==
  /\ ~o.res.ok => o.st = st
  /\ st.dtype # "" => o.st.dtype = st.dtype                   \* the data type is decided once
  /\ c.op \notin {"put"} => o.st.slots = st.slots
  /\ c.op \notin {"setgrid", "setpoints", "drop"} => o.st.imts = st.imts
  /\ c.op = "put" => \A s \in AllSlots \ {c.s} : o.st.slots[s] = st.slots[s]
  /\ c.op = "drop" => ~(\E e \in o.st.imts : e.i = c.i)
  /\ \A e \in st.imts : c.op = "drop" \/ e \in o.st.imts
Layers(j) == { [c |-> j[k].c, i |-> j[k].i, v |-> j[k].v] : k \in 1..Len(j) }
StOf(j) == [slots |-> [s \in AllSlots |-> j.slots[s]], dtype |-> j.dtype, imts |-> Layers(j.imts), base |-> j.base]
CallOf(j) == j
Pairs(j) == { <<j[k][1], j[k][2]>> : k \in 1..Len(j) }
(* the listings agree with what is stored, and name nothing twice *)
Listed(st, v) ==
  LET all == { <<e.c, e.i>> : e \in st.imts }
  IN /\ \A l \in {"all", "bycomp", "byimt"} : Pairs(v[l]) = all /\ Len(v[l]) = Cardinality(all)
     /\ { v.comps[k] : k \in 1..Len(v.comps) } = { e.c : e \in st.imts }
     /\ Len(v.comps) = Cardinality({ e.c : e \in st.imts })
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
   /\ o.res.ok = r.ok
   /\ r.ok => o.res.v = r.v
   /\ ~r.ok => o.res.exc \in {"any", r.exc}
   /\ o.st = s2
   /\ Listed(s2, r.views)
=============================================================================
