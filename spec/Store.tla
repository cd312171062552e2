------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* HDF containers as typed stores that survive being closed.               *)
(*                                                                         *)
(* The content is a set of [k |-> kind, p |-> path, v |-> value]; a path is *)
(* the sequence of group names followed by the entry's own name.  Kinds do  *)
(* not interfere.  An entry is never overwritten, only dropped and set      *)
(* again; whatever fails changes nothing.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Kinds, Places, Vals, Bads
Prefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Clash(p, q) == Prefix(p, q) \/ Prefix(q, p)
Of(st, k) == { e \in st.ents : e.k = k }
Holds(st, k, p) == \E e \in st.ents : e.k = k /\ e.p = p
Clashes(st, k, p) == \E e \in Of(st, k) : Clash(e.p, p)
(* an emptied group may go on standing in the way of an entry of its name *)
Shadow(st, k, p) == \E g \in st.groups : g.k = k /\ g.p = p
Val(st, k, p) == (CHOOSE e \in st.ents : e.k = k /\ e.p = p).v
GroupsOf(k, p) == { [k |-> k, p |-> SubSeq(p, 1, i)] : i \in 1..(Len(p) - 1) }

Done == [ok |-> TRUE, v |-> 0, lookup |-> FALSE]
Fail(l) == [ok |-> FALSE, v |-> 0, lookup |-> l]
Same(st, r) == { [st |-> st, res |-> r] }
Outcomes(st, c) ==
  CASE c.op = "set" ->
         LET blocked == Holds(st, c.k, c.p) \/ Clashes(st, c.k, c.p)
             g2 == st.groups \cup GroupsOf(c.k, c.p)
             good == [st |-> [ents |-> st.ents \cup {[k |-> c.k, p |-> c.p, v |-> c.v]}, groups |-> g2], res |-> Done]
             bad == { [st |-> [st EXCEPT !.groups = g], res |-> Fail(l)] : g \in {st.groups, g2}, l \in BOOLEAN }
         IN IF blocked \/ c.bad # "" THEN bad
            ELSE IF Shadow(st, c.k, c.p) THEN {good} \cup bad ELSE {good}
    [] c.op = "get" ->
         IF Holds(st, c.k, c.p) THEN Same(st, [ok |-> TRUE, v |-> Val(st, c.k, c.p), lookup |-> FALSE])
         ELSE IF Clashes(st, c.k, c.p) \/ Shadow(st, c.k, c.p) THEN { [st |-> st, res |-> Fail(l)] : l \in BOOLEAN }
         ELSE Same(st, Fail(TRUE))
    [] c.op = "drop" ->
         IF Holds(st, c.k, c.p) THEN Same([st EXCEPT !.ents = { e \in @ : ~(e.k = c.k /\ e.p = c.p) }], Done)
         ELSE IF Clashes(st, c.k, c.p) THEN { [st |-> st, res |-> Fail(l)] : l \in BOOLEAN }
         ELSE Same(st, Fail(TRUE))
    [] c.op \in {"reopen", "meddle"} -> Same(st, Done)
    \* loading a file that is not there fails, and makes none
    [] c.op = "missing" -> { [st |-> st, res |-> Fail(l)] : l \in BOOLEAN }
    [] c.op = "create" -> Same([ents |-> {}, groups |-> {}], Done)

(* dropping the name of a group is not specified *)
IsGroup(st, k, p) == Shadow(st, k, p) \/ \E e \in Of(st, k) : Prefix(p, e.p)
Calls(st) ==
  UNION { { [op |-> "set", k |-> pl.k, p |-> pl.p, v |-> v, bad |-> b] : v \in Vals, b \in {""} \cup Bads[pl.k] }
          \cup { [op |-> "get", k |-> pl.k, p |-> pl.p] }
          \cup (IF IsGroup(st, pl.k, pl.p) THEN {} ELSE { [op |-> "drop", k |-> pl.k, p |-> pl.p] }) : pl \in Places }
  \cup { [op |-> "reopen"], [op |-> "meddle"], [op |-> "missing"], [op |-> "create"] }
InitStates == { [ents |-> {}, groups |-> {}] }
Inv(st) == /\ \A a, b \in st.ents : a.k = b.k /\ a # b => a.p # b.p /\ ~Clash(a.p, b.p)
           /\ \A e \in st.ents : GroupsOf(e.k, e.p) \subseteq st.groups
StepInv(st, c, o) ==
  /\ ~o.res.ok => o.st.ents = st.ents
  /\ c.op \in {"get", "reopen", "meddle", "missing"} => o.st = st
  /\ c.op = "set" /\ o.res.ok => /\ o.st.ents \ st.ents = {[k |-> c.k, p |-> c.p, v |-> c.v]}
                                 /\ st.ents \subseteq o.st.ents
  /\ c.op = "drop" /\ o.res.ok => /\ ~Holds(o.st, c.k, c.p) /\ Cardinality(st.ents \ o.st.ents) = 1
                                  /\ o.st.ents \subseteq st.ents
Ents(j) == { [k |-> j[i].k, p |-> j[i].p, v |-> j[i].v] : i \in 1..Len(j) }
(* groups are not observable: the trace specification carries the most it could be *)
StOf(j) == [ents |-> Ents(j.ents), groups |-> { [k |-> j.groups[i].k, p |-> j.groups[i].p] : i \in 1..Len(j.groups) }]
CallOf(j) == j
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
   /\ o.res.ok = r.ok
   /\ r.ok => o.res.v = r.v
   /\ ~r.ok => (o.res.lookup = r.lookup)
   /\ o.st.ents = s2.ents
   \* the recorder tracks the largest possible set of groups
   /\ \A x \in { y \in Outcomes(st, c) : y.res.ok = r.ok } : x.st.groups \subseteq s2.groups
=============================================================================
