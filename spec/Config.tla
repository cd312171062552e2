------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* How senders are made and configured.                                    *)
(*   lists: the caller's own lists of files, by name                       *)
(*   senders: those made (by slot): which files, how many with repetition, *)
(*     which directory, where to, and the name of the cancel file          *)
(* A sender keeps what it was given when it was given it.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, Lists, News, Files, Dirs, Remotes, Classes, Limit

Missing == {"gone", "folder"}                          \* not files
NoDir == {"gone", "f1"}                                \* not directories
Required(k) == CASE k = "copy" -> {"remote_directory"}
                 [] k = "ftp" -> {"remote_directory", "remote_host"}
                 [] k = "ssh" -> {"private_key", "remote_directory", "remote_host"}
                 [] k = "email" -> {"smtp_servers", "sender", "subject", "recipients", "message"}
                 [] k = "pdl" -> {"java", "jarfile", "privatekey", "configfile", "source", "type", "code", "eventsource", "eventsourcecode"}
Kinds == {"copy", "ftp", "ssh", "email", "pdl"}

Nobody == [there |-> FALSE, files |-> {}, n |-> 0, dir |-> "", to |-> "", mark |-> ""]
Items(s) == { s[i] : i \in DOMAIN s }
R(ok, exc) == [ok |-> ok, exc |-> exc, says |-> ""]
O(st, res) == [st |-> st, res |-> res]
Fails(st, es) == { O(st, R(FALSE, e)) : e \in es }
With(st, k, s) == O([st EXCEPT !.senders = [st.senders EXCEPT ![k] = s]], R(TRUE, ""))

(* what a construction may complain about *)
Faults(st, c) ==
  (IF c.to = "" THEN {"RequiredArgumentError"} ELSE {})
  \cup (IF c.form # "list" /\ c.list # "" THEN {"TypeError"} ELSE {})
  \cup (IF c.list # "" /\ Items(st.lists[c.list]) \cap Missing # {} THEN {"OSError"} ELSE {})
  \cup (IF c.dir \in NoDir THEN {"OSError"} ELSE {})

Outcomes(st, c) ==
  CASE c.op = "new" -> IF Faults(st, c) # {} THEN Fails(st, Faults(st, c))
                       ELSE LET fs == IF c.list = "" THEN <<>> ELSE st.lists[c.list]
                            IN { With(st, c.k, [there |-> TRUE, files |-> Items(fs), n |-> Len(fs), dir |-> c.dir, to |-> c.to, mark |-> c.mark]) }
    [] c.op = "add" -> LET fs == st.lists[c.list]
                           s == st.senders[c.k]
                       IN IF Items(fs) \cap Missing # {} THEN Fails(st, {"OSError"})
                          ELSE { With(st, c.k, [s EXCEPT !.files = s.files \cup Items(fs), !.n = s.n + Len(fs)]) }
    [] c.op = "chdir" -> IF c.dir \in NoDir THEN Fails(st, {"OSError"}) ELSE { With(st, c.k, [st.senders[c.k] EXCEPT !.dir = c.dir]) }
    [] c.op = "prop" -> { With(st, c.k, [st.senders[c.k] EXCEPT !.to = c.to]) }
    [] c.op = "poke" -> { O([st EXCEPT !.lists = [st.lists EXCEPT ![c.list] = Append(@, c.f)]], R(TRUE, "")) }
    [] c.op = "empty" -> { O([st EXCEPT !.lists = [st.lists EXCEPT ![c.list] = <<>>]], R(TRUE, "")) }
    [] c.op = "class" -> IF c.kind \in Kinds THEN { O(st, [R(TRUE, "") EXCEPT !.says = c.kind]) } ELSE Fails(st, {"KeyError"})
    [] c.op = "make" -> IF c.without \in Required(c.kind) \cup {"everything"} THEN Fails(st, {"RequiredArgumentError"}) ELSE { O(st, [R(TRUE, "") EXCEPT !.says = c.kind]) }
Accept(st, c, r, s2) == [st |-> s2, res |-> r] \in Outcomes(st, c)

There(st) == { k \in Slots : st.senders[k].there }
Short(st, l) == Len(st.lists[l]) < Limit
Calls(st) ==
  { c \in News : TRUE } \cup
  { [op |-> "add", k |-> k, list |-> l] : k \in { j \in There(st) : st.senders[j].n < Limit }, l \in DOMAIN Lists } \cup
  { [op |-> "chdir", k |-> k, dir |-> d] : k \in There(st), d \in Dirs \cup NoDir } \cup
  { [op |-> "prop", k |-> k, to |-> r] : k \in There(st), r \in Remotes } \cup
  { [op |-> "poke", list |-> l, f |-> f] : l \in { m \in DOMAIN Lists : Short(st, m) }, f \in Files } \cup
  { [op |-> "empty", list |-> l] : l \in DOMAIN Lists } \cup Classes
InitStates == { [lists |-> Lists, senders |-> [k \in Slots |-> Nobody]] }
Inv(st) == \A k \in Slots : LET s == st.senders[k] IN s.files \cap Missing = {} /\ s.dir \notin NoDir /\ (s.there => s.to # "") /\ Cardinality(s.files) <= s.n
StepInv(st, c, o) ==
  /\ (~o.res.ok => o.st = st)
  \* what the caller does with its lists matters to no sender, and no sender changes them
  /\ (c.op \in {"poke", "empty"} => o.st.senders = st.senders)
  /\ (c.op \in {"new", "add", "chdir", "prop"} => o.st.lists = st.lists /\ \A k \in Slots : k # c.k => o.st.senders[k] = st.senders[k])
StOf(j) == [lists |-> j.lists, senders |-> [k \in Slots |-> [j.senders[k] EXCEPT !.files = { j.senders[k].files[i] : i \in DOMAIN j.senders[k].files }]]]
CallOf(j) == j
=============================================================================
