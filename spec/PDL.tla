-------------------------------- MODULE PDL --------------------------------
(***************************************************************************)
(* PDLSender: one invocation of the PDL client per send() or cancel(),     *)
(* carrying what was configured; its exit status decides success.          *)
(*                                                                         *)
(* An invocation is a set of [k |-> option, v |-> value].  Values are      *)
(* tokens for strings, and integers (in the last decimal printed) for      *)
(* numbers; "?" is anything the driver could not recognise.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cfgs
Required == {"source", "type", "code", "eventsource", "eventsourcecode", "privateKey", "configFile"}
Range(s) == { s[i] : i \in 1..Len(s) }

(* x is given in tenths of the last printed digit *)
Rounds(x, out) == LET d == out * 10 - x IN -5 <= d /\ d <= 5

ReqArgs(status) == { [k |-> r, v |-> r] : r \in Required } \cup { [k |-> "status", v |-> status], [k |-> "send", v |-> "set"],
                     [k |-> "jar", v |-> "jarfile"], [k |-> "java", v |-> "java"] }
FileArgs(cfg) == (IF cfg.nfiles = 1 THEN {[k |-> "file", v |-> "file"]} ELSE {})
                 \cup (IF cfg.dir THEN {[k |-> "directory", v |-> "directory"]} ELSE {})
TextArgs(cfg) == { [k |-> p.k, v |-> p.k] : p \in cfg.text }       \* values passed through unchanged
NumKeys(cfg) == { p.k : p \in cfg.num }

Full(cfg, args) ==
  LET plain == { a \in args : a.k \notin NumKeys(cfg) }
      num == { a \in args : a.k \in NumKeys(cfg) }
  IN /\ plain = ReqArgs("UPDATE") \cup FileArgs(cfg) \cup TextArgs(cfg)
     /\ Cardinality(num) = Cardinality(cfg.num)
     /\ \A p \in cfg.num : \E a \in num : a.k = p.k /\ Rounds(p.x, a.v)
Deletes(cfg, args) == ReqArgs("DELETE") \subseteq args /\ ~(\E a \in args : a.k = "status" /\ a.v # "DELETE")

Count(cfg) == cfg.nfiles + cfg.ndir
Allowed(st, c, r) ==
  CASE c.op = "send" /\ st.cfg.nfiles > 1 -> ~r.ok /\ r.exc = "PDLError" /\ r.runs = <<>>
    [] c.op = "send" /\ st.cfg.nfiles <= 1 ->
         /\ Len(r.runs) = 1 /\ Full(st.cfg, r.runs[1])
         /\ r.ok = st.tool
         /\ r.ok => r.n = Count(st.cfg) /\ r.said
         /\ ~r.ok => r.exc = "PDLError"
    [] c.op = "cancel" -> /\ Len(r.runs) = 1 /\ Deletes(st.cfg, r.runs[1])
                          /\ r.ok = st.tool
                          /\ r.ok => r.said
                          /\ ~r.ok => r.exc = "PDLError"
    [] c.op = "tool" -> TRUE
NumArgs(cfg) == { [k |-> p.k, v |-> p.x \div 10] : p \in cfg.num }
Result(st, c) ==
  CASE c.op = "tool" -> [ok |-> TRUE, n |-> 0, exc |-> "", said |-> TRUE, runs |-> <<>>]
    [] c.op = "send" /\ st.cfg.nfiles > 1 -> [ok |-> FALSE, n |-> 0, exc |-> "PDLError", said |-> FALSE, runs |-> <<>>]
    [] c.op = "send" /\ st.cfg.nfiles <= 1 -> [ok |-> st.tool, n |-> IF st.tool THEN Count(st.cfg) ELSE 0,
          exc |-> IF st.tool THEN "" ELSE "PDLError", said |-> st.tool,
          runs |-> << ReqArgs("UPDATE") \cup FileArgs(st.cfg) \cup TextArgs(st.cfg) \cup NumArgs(st.cfg) >>]
    [] c.op = "cancel" -> [ok |-> st.tool, n |-> 0, exc |-> IF st.tool THEN "" ELSE "PDLError", said |-> st.tool,
          runs |-> << ReqArgs("DELETE") >>]
Sent(st, c, r) == IF c.op = "send" /\ r.ok THEN "live" ELSE IF c.op = "cancel" /\ r.ok THEN "deleted" ELSE st.product
After(st, c, r) == [cfg |-> st.cfg, tool |-> IF c.op = "tool" THEN c.ok ELSE st.tool, product |-> Sent(st, c, r)]
Outcomes(st, c) == { [st |-> After(st, c, Result(st, c)), res |-> Result(st, c)] }
Calls(st) == { [op |-> "send"], [op |-> "cancel"] } \cup { [op |-> "tool", ok |-> b] : b \in BOOLEAN }
InitStates == { [cfg |-> g, tool |-> TRUE, product |-> "none"] : g \in Cfgs }
Inv(st) == st.product \in {"none", "live", "deleted"}
(* a product goes live only when the tool said so, and an update carries everything *)
StepInv(st, c, o) == /\ Allowed(st, c, o.res)
                     /\ o.st.product # st.product => st.tool
KV(j) == { [k |-> j[i].k, v |-> j[i].v] : i \in 1..Len(j) }
CfgOf(j) == [nfiles |-> j.nfiles, dir |-> j.dir, ndir |-> j.ndir, text |-> { [k |-> j.text[i].k] : i \in 1..Len(j.text) },
             num |-> { [k |-> j.num[i].k, x |-> j.num[i].x] : i \in 1..Len(j.num) }]
StOf(j) == [cfg |-> CfgOf(j.cfg), tool |-> j.tool, product |-> j.product]
CallOf(j) == j
Accept(st, c, r, s2) ==
  LET res == [ok |-> r.ok, n |-> r.n, exc |-> r.exc, said |-> r.said, runs |-> [i \in 1..Len(r.runs) |-> KV(r.runs[i])]]
  IN /\ Allowed(st, c, res)
     /\ \A i \in 1..Len(r.runs) : Cardinality(res.runs[i]) = Len(r.runs[i])     \* no option twice
     /\ s2 = After(st, c, res)
=============================================================================
