------------------------------ MODULE Delivery ------------------------------
(***************************************************************************)
(* What a file sender (CopySender, FTPSender, SecureSender) promises.      *)
(*                                                                         *)
(* A sender is configured with a list of single files ("flat") and/or a    *)
(* local directory ("tree").  send() makes the remote directory hold every *)
(* single file under its base name and every file of the tree under its    *)
(* relative path, byte for byte, touching nothing else.  cancel() leaves a *)
(* marker.  Local files, and the remote files of other people, change      *)
(* between calls.                                                          *)
(*                                                                         *)
(* A file system is a set of [p |-> path, c |-> content]; a path is a      *)
(* sequence of names, a content an integer standing for a byte string, 0    *)
(* being the empty one.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Backend,     \* "copy", "ftp" or "ssh"
          TreePaths,   \* paths the model may put in the local directory
          FlatNames,   \* names of single files
          ExtPaths,    \* remote paths that other parties write
          Contents,    \* contents
          MarkerTexts, \* texts given to cancel()
          FaultPoints, \* where the transport may fail
          FaultKinds,
          Configs      \* <<use tree?, flat list>> pairs

MARK == <<".cancel">>

Paths(fs) == { e.p : e \in fs }
At(fs, p) == (CHOOSE e \in fs : e.p = p).c
Put(fs, p, c) == { e \in fs : e.p # p } \cup { [p |-> p, c |-> c] }
Del(fs, p) == { e \in fs : e.p # p }
IsProperPrefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Range(s) == { s[i] : i \in 1..Len(s) }

(* two paths that cannot both be files *)
Clash(p, q) == IsProperPrefix(p, q) \/ IsProperPrefix(q, p)
Proper(fs) == /\ Cardinality(Paths(fs)) = Cardinality(fs)
              /\ \A p, q \in Paths(fs) : ~Clash(p, q)

(* what send() has to deliver *)
Sources(st) == (IF st.useTree THEN st.tree ELSE {})
               \cup { e \in st.flat : e.p[1] \in Range(st.list) }
Missing(st) == \E i \in 1..Len(st.list) : <<st.list[i]>> \notin Paths(st.flat)
Count(st) == Len(st.list) + (IF st.useTree THEN Cardinality(st.tree) ELSE 0)
DestPaths(st) == Paths(Sources(st))

ClearsMarker == Backend = "copy"
(* ssh replaces a remote *file* that stands where a directory is needed *)
Replaces == Backend = "ssh"
Blocked(st, p) == \/ \E q \in Paths(st.remote) : IsProperPrefix(p, q)
                  \/ ~Replaces /\ \E q \in Paths(st.remote) : IsProperPrefix(q, p)
                  \/ \E q \in DestPaths(st) : Clash(p, q)
CanDeliver(st) == ~Missing(st) /\ \A p \in DestPaths(st) : ~Blocked(st, p)

Base(st) == IF ClearsMarker THEN Del(st.remote, MARK) ELSE st.remote
Kept(st) == { e \in Base(st) : /\ e.p \notin DestPaths(st)
                               /\ ~(\E q \in DestPaths(st) : IsProperPrefix(e.p, q)) }
(* one winner per destination path (a single file and a tree file may share one) *)
Winners(st) == { W \in SUBSET Sources(st) : /\ Paths(W) = DestPaths(st)
                                            /\ Cardinality(W) = Cardinality(DestPaths(st)) }
(* after a failed send every path is old or new, never anything else *)
Partial(st) ==
  LET base == {st.remote, Base(st)}
      sub == SUBSET { e \in Sources(st) : ~Blocked(st, e.p) }
  IN { { e \in b : e.p \notin Paths(W) /\ ~(\E q \in Paths(W) : IsProperPrefix(e.p, q)) } \cup W :
         b \in base, W \in { S \in sub : Cardinality(Paths(S)) = Cardinality(S) } }

(* membership in Partial(st) without enumerating it: the sources that did arrive are read off R *)
IsPartial(st, R) ==
  LET W == { e \in R : e \in Sources(st) /\ ~Blocked(st, e.p) }
  IN \E b \in {st.remote, Base(st)} :
       R = { e \in b : e.p \notin Paths(W) /\ ~(\E q \in Paths(W) : IsProperPrefix(e.p, q)) } \cup W
(* the same for complete deliveries *)
IsDelivered(st, R) ==
  LET W == { e \in R : e.p \in DestPaths(st) }
  IN /\ W \subseteq Sources(st) /\ Paths(W) = DestPaths(st) /\ Cardinality(W) = Cardinality(DestPaths(st))
     /\ R = Kept(st) \cup W

Delivered(st) ==
  IF ~CanDeliver(st) THEN {}
  ELSE { [st |-> [st EXCEPT !.remote = Kept(st) \cup W, !.rdir = TRUE],
          res |-> [ok |-> TRUE, n |-> Count(st), litter |-> 0]] : W \in Winners(st) }
Failed(st) == { [st |-> [st EXCEPT !.remote = R, !.rdir = d],
                 res |-> [ok |-> FALSE, n |-> 0, litter |-> 0]] :
                   R \in Partial(st), d \in {st.rdir, TRUE} }
SendOutcomes(st) == IF CanDeliver(st) THEN Delivered(st) ELSE Failed(st)
(* the transport may fail: success is reported only if everything arrived *)
FaultyOutcomes(st) == Delivered(st) \cup Failed(st)

CancelOutcomes(st, c) ==
  LET good == [st |-> [st EXCEPT !.remote = Put(st.remote, MARK, c), !.rdir = TRUE],
               res |-> [ok |-> TRUE, n |-> 0, litter |-> 0]]
      bad == [st |-> st, res |-> [ok |-> FALSE, n |-> 0, litter |-> 0]]
  IN IF \E q \in Paths(st.remote) : Clash(MARK, q) THEN {bad}
     ELSE IF st.rdir THEN {good} ELSE {good, bad}

NoRes == [ok |-> TRUE, n |-> 0, litter |-> 0]
Outcomes(st, c) ==
  CASE c.op = "send" -> SendOutcomes(st)
    [] c.op = "sendf" -> FaultyOutcomes(st)
    [] c.op = "cancel" -> CancelOutcomes(st, c.c)
    [] c.op = "tree" -> { [st |-> [st EXCEPT !.tree = Put(@, c.p, c.c)], res |-> NoRes] }
    [] c.op = "untree" -> { [st |-> [st EXCEPT !.tree = Del(@, c.p)], res |-> NoRes] }
    [] c.op = "flat" -> { [st |-> [st EXCEPT !.flat = Put(@, c.p, c.c)], res |-> NoRes] }
    [] c.op = "unflat" -> { [st |-> [st EXCEPT !.flat = Del(@, c.p)], res |-> NoRes] }
    [] c.op = "ext" -> { [st |-> [st EXCEPT !.remote = Put(@, c.p, c.c), !.rdir = TRUE], res |-> NoRes] }
    [] c.op = "unext" -> { [st |-> [st EXCEPT !.remote = Del(@, c.p)], res |-> NoRes] }

FreeOf(fs, p) == ~(\E q \in Paths(fs) : Clash(p, q))
Calls(st) ==
  { [op |-> "send"] } \cup { [op |-> "sendf", k |-> k, kind |-> d] : k \in FaultPoints, d \in FaultKinds } \cup { [op |-> "cancel", c |-> k] : k \in MarkerTexts }
  \cup { [op |-> "tree", p |-> p, c |-> k] : p \in { q \in TreePaths : st.useTree /\ FreeOf(st.tree, q) }, k \in Contents }
  \cup { [op |-> "untree", p |-> p] : p \in IF st.useTree THEN Paths(st.tree) ELSE {} }
  \cup { [op |-> "flat", p |-> <<n>>, c |-> k] : n \in FlatNames \cap Range(st.list), k \in Contents }
  \cup { [op |-> "unflat", p |-> <<n>>] : n \in { m \in Range(st.list) : <<m>> \in Paths(st.flat) } }
  \cup { [op |-> "ext", p |-> p, c |-> k] : p \in { q \in ExtPaths : FreeOf(st.remote, q) }, k \in Contents }
  \cup { [op |-> "unext", p |-> p] : p \in ExtPaths \cap Paths(st.remote) }

C0 == CHOOSE c \in Contents : \A d \in Contents : c <= d
InitStates == { [useTree |-> g[1], list |-> g[2],
                 tree |-> IF g[1] THEN { [p |-> p, c |-> C0] : p \in { q \in TreePaths : Len(q) = 1 } } ELSE {},
                 flat |-> { [p |-> <<n>>, c |-> C0] : n \in Range(g[2]) },
                 remote |-> {}, rdir |-> FALSE] : g \in Configs }

Inv(st) == Proper(st.remote) /\ Proper(st.tree) /\ Proper(st.flat)
(* the promise, stated independently of how Outcomes is computed *)
StepInv(st, c, o) ==
  LET R == o.st.remote IN
  /\ c.op \in {"send", "sendf", "cancel"} => o.st.tree = st.tree /\ o.st.flat = st.flat       \* sources are never touched
  /\ c.op \in {"send", "sendf"} /\ o.res.ok =>
       /\ IsDelivered(st, R)
       /\ DestPaths(st) \subseteq Paths(R)                                          \* everything arrived
       /\ \A e \in R : e.p \in DestPaths(st) => e \in Sources(st)                   \* with the right bytes
       /\ \A e \in R : e.p \notin DestPaths(st) => e \in st.remote                  \* nothing else appeared
       /\ \A e \in st.remote : e.p \notin DestPaths(st) /\ e.p # MARK /\ ~Replaces => e \in R  \* or vanished
       /\ ClearsMarker /\ MARK \notin DestPaths(st) => MARK \notin Paths(R)
       /\ o.res.n = Len(st.list) + (IF st.useTree THEN Cardinality(st.tree) ELSE 0)
  /\ c.op \in {"send", "sendf"} /\ ~o.res.ok =>
       /\ \A e \in R : e \in st.remote \/ e \in Sources(st)
       /\ IsPartial(st, R)
       /\ \A e \in st.remote : e.p \notin DestPaths(st) /\ e.p # MARK /\ ~Replaces => e \in R
  /\ c.op = "cancel" /\ o.res.ok => [p |-> MARK, c |-> c.c] \in R /\ Del(R, MARK) = Del(st.remote, MARK)
  /\ c.op = "cancel" /\ ~o.res.ok => o.st = st

FS(j) == { [p |-> j[i].p, c |-> j[i].c] : i \in 1..Len(j) }
StOf(j) == [useTree |-> j.useTree, list |-> j.list, tree |-> FS(j.tree), flat |-> FS(j.flat),
            remote |-> FS(j.remote), rdir |-> j.rdir]
CallOf(j) == j
ResMatch(r, j) == /\ r.ok = j.ok
                  /\ r.ok => r.n = j.n /\ r.litter = j.litter
Accept(st, c, r, s2) ==
  IF c.op \in {"send", "sendf"}
  THEN IF r.ok THEN /\ CanDeliver(st) /\ IsDelivered(st, s2.remote)
                    /\ s2 = [st EXCEPT !.remote = s2.remote, !.rdir = TRUE]
                    /\ r.n = Count(st) /\ r.litter = 0
       ELSE /\ c.op = "send" => ~CanDeliver(st)
            /\ IsPartial(st, s2.remote) /\ s2.rdir \in {st.rdir, TRUE}
            /\ s2 = [st EXCEPT !.remote = s2.remote, !.rdir = s2.rdir]
  ELSE \E o \in Outcomes(st, c) : ResMatch(o.res, r) /\ o.st = s2
=============================================================================
