------------------------------ MODULE Command ------------------------------
(***************************************************************************)
(* Running system commands. A program is a sequence of parts joined as in  *)
(* the shell by ";", "&&" or "||" (the first part's join is ";"); a part   *)
(* writes some bytes on its output and on its error output, adds its mark  *)
(* to a log, and exits with a code, or ends the whole shell by a signal.   *)
(*   log: the number of marks in the log                                   *)
(* Bytes are runs: <<which, how many>>.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Programs, Together, LogLimit

Empty == [out |-> <<>>, err |-> <<>>, x |-> 0, log |-> 0, dead |-> FALSE]
Put(s, r) == IF r = <<>> \/ r[2] = 0 THEN s
             ELSE IF s # <<>> /\ s[Len(s)][1] = r[1] THEN [s EXCEPT ![Len(s)] = <<r[1], s[Len(s)][2] + r[2]>>]
             ELSE Append(s, r)
Runs(a, p) == ~a.dead /\ CASE p.join = ";" -> TRUE [] p.join = "&&" -> a.x = 0 [] p.join = "||" -> a.x # 0
Part(a, p) == IF ~Runs(a, p) THEN a
              ELSE [out |-> Put(a.out, p.out), err |-> Put(a.err, p.err), x |-> p.x, log |-> a.log + p.mark, dead |-> p.x < 0]
RECURSIVE After(_, _)
After(a, ps) == IF ps = <<>> THEN a ELSE After(Part(a, Head(ps)), Tail(ps))
Run(ps) == After(Empty, ps)
Answer(a) == [ok |-> a.x = 0, out |-> a.out, err |-> a.err]
RECURSIVE Marks(_)
Marks(pss) == IF pss = <<>> THEN 0 ELSE Run(Head(pss)).log + Marks(Tail(pss))

(* one program after another is one call each; several at once give each caller its own answer *)
Outcomes(st, c) == { [st |-> [log |-> st.log + Marks(c.progs)], res |-> [k \in 1..Len(c.progs) |-> Answer(Run(c.progs[k]))]] }
Accept(st, c, r, s2) == [st |-> s2, res |-> r] \in Outcomes(st, c)
Calls(st) == IF st.log >= LogLimit THEN {} ELSE { [op |-> "run", progs |-> <<p>>] : p \in Programs } \cup { [op |-> "run", progs |-> t] : t \in Together }
InitStates == { [log |-> 0] }
Inv(st) == st.log >= 0
Count(s) == LET RECURSIVE C(_)
                C(t) == IF t = <<>> THEN 0 ELSE Head(t)[2] + C(Tail(t))
            IN C(s)
StepInv(st, c, o) ==
  /\ o.st.log >= st.log
  /\ Len(o.res) = Len(c.progs)
  /\ \A k \in 1..Len(c.progs) : LET ps == c.progs[k]
                                    a == Run(ps)
                                IN \* a program that is one part succeeds exactly when the part does; a signal is never a success
                                   /\ (Len(ps) = 1 => (o.res[k].ok <=> ps[1].x = 0))
                                   /\ (a.dead => ~o.res[k].ok)
                                   /\ ((\A j \in 1..Len(ps) : ps[j].join = ";") /\ ~a.dead => (o.res[k].ok <=> ps[Len(ps)].x = 0))
StOf(j) == j
CallOf(j) == j
=============================================================================
