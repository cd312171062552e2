------------------------------- MODULE Email -------------------------------
(***************************************************************************)
(* EmailSender: who receives which message, through which server.          *)
(*                                                                         *)
(* cfg   the sender's configuration                                        *)
(* modes what each configured server does at the moment, in order          *)
(* inbox how many product messages (s) and cancel messages (k) every       *)
(*       recipient has received so far                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cfgs,      \* configurations of the bounded model
          ModeSeqs   \* server situations of the bounded model

Accepting == {"up", "quitdrop", "picky"}
(* picky servers take everything except mail for this recipient *)
Refused == "r1"
Range(s) == { s[i] : i \in 1..Len(s) }
Min2(a, b) == IF a < b THEN a ELSE b

FirstUp(modes) == IF \E i \in 1..Len(modes) : modes[i] \in Accepting
                  THEN CHOOSE i \in 1..Len(modes) : /\ modes[i] \in Accepting
                                                    /\ \A j \in 1..(i-1) : modes[j] \notin Accepting
                  ELSE 0
(* recipients allowed in one message *)
Cap(cfg) == IF cfg.maxbcc = 0 THEN 1 ELSE cfg.maxbcc
People(cfg) == Range(cfg.rcpts)

Subject(cfg, kind) == IF kind = "cancel" /\ cfg.csubj THEN "cancelsubject" ELSE "subject"
Body(cfg, kind, arg) == IF kind = "send" THEN "message"
                        ELSE IF cfg.ccont THEN "cancelprop"
                        ELSE IF arg THEN "cancelarg" ELSE "cancelstd"
Files(cfg, kind) == IF kind = "send" THEN cfg.files ELSE {}

(* the message itself is what was configured, and tells nobody about the others *)
Faithful(cfg, m, kind, arg) ==
  /\ m.from = "sender" /\ m.subject = Subject(cfg, kind) /\ m.body = Body(cfg, kind, arg)
  /\ m.files = Files(cfg, kind)
  /\ m.zip = (kind = "send" /\ cfg.zip /\ cfg.files # {})
Private(cfg, m) == IF cfg.maxbcc = 0 THEN m.shown = m.to ELSE m.shown = {}
Sized(cfg, m) == Cardinality(m.to) <= Cap(cfg)
Primary(cfg, m) == cfg.maxbcc # 0 /\ cfg.primary => m.prim

Times(msgs, r) == Cardinality({ i \in 1..Len(msgs) : r \in msgs[i].to })
(* does any server take a message for these people alone? *)
Taken(st, r) == \E i \in 1..Len(st.modes) : st.modes[i] \in Accepting /\ ~(st.modes[i] = "picky" /\ r = Refused)

GoodMsgs(st, msgs, kind, arg) ==
  \A i \in 1..Len(msgs) : LET m == msgs[i] IN
     /\ Faithful(st.cfg, m, kind, arg) /\ Private(st.cfg, m) /\ Sized(st.cfg, m) /\ Primary(st.cfg, m)
     /\ m.to \subseteq People(st.cfg)
     /\ m.srv \in 1..Len(st.modes) /\ st.modes[m.srv] \in Accepting
     \* servers are tried in order: one before can only have been passed over because it refused
     /\ \A j \in 1..(m.srv - 1) : st.modes[j] \notin {"up", "quitdrop"}
     /\ (\E j \in 1..(m.srv - 1) : st.modes[j] = "picky") => m.to \subseteq {Refused}

HasPicky(st) == \E i \in 1..Len(st.modes) : st.modes[i] = "picky"
Accept1(st, kind, arg, r) ==
  LET msgs == r.msgs
      all == \A p \in People(st.cfg) : Times(msgs, p) = 1
  IN
  /\ GoodMsgs(st, msgs, kind, arg)
  /\ \A p \in People(st.cfg) : Times(msgs, p) <= 1            \* nobody twice
  /\ r.ok => /\ \A p \in People(st.cfg) : p # Refused \/ ~HasPicky(st) => Times(msgs, p) = 1   \* everybody once
             /\ kind = "send" => r.n = st.cfg.nfiles
             /\ kind = "cancel" => r.n = 1                     \* a description came back
  /\ ~r.ok => ~all \/ People(st.cfg) = {}
  /\ (People(st.cfg) # {} /\ FirstUp(st.modes) = 0) => ~r.ok
  /\ (\A p \in People(st.cfg) : Taken(st, p)) /\ ~HasPicky(st) /\ FirstUp(st.modes) # 0
     /\ ~(kind = "send" /\ st.cfg.odd) => r.ok           \* text that is not UTF-8 may be refused, never changed
  /\ People(st.cfg) = {} => r.ok /\ Len(msgs) = 0

Bump(st, msgs, kind) == [ p \in People(st.cfg) |->
   IF kind = "send" THEN [s |-> st.inbox[p].s + Times(msgs, p), k |-> st.inbox[p].k]
                    ELSE [s |-> st.inbox[p].s, k |-> st.inbox[p].k + Times(msgs, p)] ]

(* bounded model: cut the recipients, in order, into blocks of legal size *)
RECURSIVE Cuts(_, _)
Cuts(s, cap) == IF s = <<>> THEN {<<>>}
  ELSE UNION { { <<Range(SubSeq(s, 1, k))>> \o rest : rest \in Cuts(SubSeq(s, k + 1, Len(s)), cap) }
               : k \in 1..Min2(cap, Len(s)) }
MsgFor(st, S, kind, arg) == [srv |-> FirstUp(st.modes), to |-> S, prim |-> st.cfg.primary, from |-> "sender",
   subject |-> Subject(st.cfg, kind), body |-> Body(st.cfg, kind, arg), files |-> Files(st.cfg, kind),
   zip |-> (kind = "send" /\ st.cfg.zip /\ st.cfg.files # {}), shown |-> IF st.cfg.maxbcc = 0 THEN S ELSE {}]
Mailings(st, kind, arg) ==
  IF People(st.cfg) = {} \/ FirstUp(st.modes) # 0
  THEN { [msgs |-> [i \in 1..Len(b) |-> MsgFor(st, b[i], kind, arg)], ok |-> TRUE,
          n |-> IF kind = "send" THEN st.cfg.nfiles ELSE 1] : b \in Cuts(st.cfg.rcpts, Cap(st.cfg)) }
  ELSE { [msgs |-> <<>>, ok |-> FALSE, n |-> 0] }

Kind(c) == c.op
Outcomes(st, c) ==
  CASE c.op \in {"send", "cancel"} ->
         { [st |-> [st EXCEPT !.inbox = Bump(st, r.msgs, c.op)], res |-> r] : r \in Mailings(st, c.op, c.arg) }
    [] c.op = "modes" -> { [st |-> [st EXCEPT !.modes = c.m], res |-> [ok |-> TRUE]] }
Calls(st) == IF \E p \in People(st.cfg) : st.inbox[p].s + st.inbox[p].k > 2 THEN {}
             ELSE { [op |-> "send", arg |-> FALSE] } \cup { [op |-> "cancel", arg |-> b] : b \in BOOLEAN }
                  \cup { [op |-> "modes", m |-> m] : m \in { x \in ModeSeqs : Len(x) = Len(st.modes) } \ {st.modes} }
Zero(cfg) == [ p \in People(cfg) |-> [s |-> 0, k |-> 0] ]
InitStates == { [cfg |-> g, modes |-> m, inbox |-> Zero(g)] : g \in Cfgs, m \in ModeSeqs }
Inv(st) == \A p \in People(st.cfg) : st.inbox[p].s >= 0
(* exactly once, or not at all and an exception *)
StepInv(st, c, o) ==
  c.op \in {"send", "cancel"} =>
    /\ Accept1(st, c.op, c.arg, o.res)
    /\ o.res.ok /\ ~HasPicky(st) => \A p \in People(st.cfg) :
          o.st.inbox[p].s + o.st.inbox[p].k = st.inbox[p].s + st.inbox[p].k + 1

Set(j) == Range(j)
FileSet(j) == { [n |-> j[i].n, c |-> j[i].c] : i \in 1..Len(j) }
CfgOf(j) == [rcpts |-> j.rcpts, maxbcc |-> j.maxbcc, primary |-> j.primary, zip |-> j.zip, nfiles |-> j.nfiles,
             csubj |-> j.csubj, ccont |-> j.ccont, odd |-> j.odd, files |-> FileSet(j.files)]
StOf(j) == [cfg |-> CfgOf(j.cfg), modes |-> j.modes,
            inbox |-> [p \in Range(j.cfg.rcpts) |-> LET i == CHOOSE i \in 1..Len(j.cfg.rcpts) : j.cfg.rcpts[i] = p
                                                    IN [s |-> j.s[i], k |-> j.k[i]]]]
CallOf(j) == j
MsgOf(m) == [srv |-> m.srv, to |-> Set(m.to), prim |-> m.prim, from |-> m.from, subject |-> m.subject,
             body |-> m.body, files |-> FileSet(m.files), zip |-> m.zip, shown |-> Set(m.shown)]
Accept(st, c, r, s2) ==
  IF c.op = "modes" THEN s2 = [st EXCEPT !.modes = c.m]
  ELSE LET res == [ok |-> r.ok, n |-> r.n, msgs |-> [i \in 1..Len(r.msgs) |-> MsgOf(r.msgs[i])]]
       IN /\ r.dup = 0           \* no envelope names an address twice, no unknown address
          /\ Accept1(st, c.op, c.arg, res)
          /\ s2 = [st EXCEPT !.inbox = Bump(st, res.msgs, c.op)]
=============================================================================
