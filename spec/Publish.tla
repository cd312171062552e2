------------------------------ MODULE Publish ------------------------------
(***************************************************************************)
(* What somebody polling the remote directory can see while a send is      *)
(* under way, and what is left when it dies there.                         *)
(*                                                                         *)
(* vis   what stands under final names: names that held a file before, or  *)
(*       under which this send is to deliver one                           *)
(* src   what the send has to deliver, one entry per final name            *)
(* A file is copied in pieces, so the sender works under names of its own  *)
(* (not visible here) and publishes whole files; nothing else is allowed.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Names, Contents
MARK == ".cancel"
Paths(fs) == { e.p : e \in fs }
Put(fs, W) == { e \in fs : e.p \notin Paths(W) } \cup W
(* every final name keeps what it holds or receives the whole new file *)
Mixtures(st) ==
  { Put(b, W) : b \in {st.vis, { e \in st.vis : e.p # MARK }}, W \in SUBSET st.src }
Full(st) == Put({ e \in st.vis : e.p # MARK \/ ~st.clears }, st.src)

Outcomes(st, c) ==
  CASE c.op \in {"look", "fail", "die"} ->
         { [st |-> [st EXCEPT !.vis = m], res |-> 0] : m \in IF st.clears \/ MARK \notin Paths(st.vis) THEN Mixtures(st)
                                                         ELSE { x \in Mixtures(st) : MARK \in Paths(x) } }
    [] c.op = "ok" -> { [st |-> [st EXCEPT !.vis = Full(st)], res |-> 0] }   \* send returned
    [] c.op = "retry" -> { [st |-> [st EXCEPT !.vis = Full(st)], res |-> 0] } \* a later send succeeded
    [] c.op = "change" -> { [st |-> [st EXCEPT !.src = Put(@, {[p |-> c.p, c |-> c.c]})], res |-> 0] }

Calls(st) == { [op |-> o] : o \in {"look", "fail", "die", "ok", "retry"} }
             \cup { [op |-> "change", p |-> p, c |-> k] : p \in Paths(st.src), k \in Contents }
Assign(S) == { { [p |-> n, c |-> f[n]] : n \in S } : f \in [S -> Contents] }
InitStates == UNION { { [vis |-> v, src |-> s, clears |-> b, all |-> v \cup s] : v \in UNION { Assign(T) : T \in SUBSET (Names \cup {MARK}) },
                          s \in Assign(Names) } : b \in BOOLEAN }
(* nothing but whole files, old or new, is ever visible *)
Inv(st) == Cardinality(Paths(st.vis)) = Cardinality(st.vis)
StepInv(st, c, o) == /\ \A e \in o.st.vis : e \in st.vis \/ e \in st.src
                     /\ \A e \in st.vis : e.p # MARK => e.p \in Paths(o.st.vis)
                     /\ c.op \in {"ok", "retry"} => st.src \subseteq o.st.vis
FS(j) == { [p |-> j[i].p, c |-> j[i].c] : i \in 1..Len(j) }
StOf(j) == [vis |-> FS(j.vis), src |-> FS(j.src), clears |-> j.clears, all |-> FS(j.all)]
CallOf(j) == j
ResMatch(r, j) == TRUE
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) : ResMatch(o.res, r) /\ o.st = s2
=============================================================================
