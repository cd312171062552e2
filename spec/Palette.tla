------------------------------ MODULE Palette ------------------------------
(***************************************************************************)
(* A palette that gives every value of data a color.                       *)
(*   there: whether one has been made; pal: its number; lo, hi: the data   *)
(*   values that its first and last color stand for, in ticks              *)
(* A palette: zs, its borders in ticks (n + 1 of n ranges), c0 and c1, the *)
(* color at the lower and upper end of each; res, the ticks to be told     *)
(* apart (0: not said); nan, the color of no data with its opacity.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Pals, Makes, Looks, Sets

R(ok, exc) == [ok |-> ok, exc |-> exc, n |-> <<>>]
Min(s) == CHOOSE x \in s : \A y \in s : x <= y
Max(s) == CHOOSE x \in s : \A y \in s : x >= y

(* colors taken from a map of n colors of equal width *)
Ent(p, z) == LET n == Len(p.map)
                 k == 1 + ((z - p.zs[1]) * n) \div (p.zs[Len(p.zs)] - p.zs[1])
             IN p.map[IF k > n THEN n ELSE k]
Lower(p, k) == IF p.map # <<>> THEN Ent(p, p.zs[k]) ELSE p.c0[k]
Upper(p, k) == IF p.map # <<>> THEN Ent(p, p.zs[k + 1]) ELSE p.c1[k]

Range(p) == p.zs[Len(p.zs)] - p.zs[1]
Colors(p) == LET m == IF p.res = 0 THEN 0 ELSE (Range(p) + p.res - 1) \div p.res IN IF m > 256 THEN m ELSE 256
Blur(p) == Range(p) \div (Colors(p) - 1) + 1

(* one component (i) of the color of range k, at z within it *)
Mix(p, k, i, z) == LET a == Lower(p, k)[i]
                       b == Upper(p, k)[i]
                   IN a + ((b - a) * (z - p.zs[k])) \div (p.zs[k + 1] - p.zs[k])
(* where a value is on the palette, when the palette has been stretched *)
Place(p, st, v) == IF st.hi - st.lo = Range(p) THEN v - st.lo + p.zs[1] ELSE p.zs[1] + ((v - st.lo) * Range(p)) \div (st.hi - st.lo)
Near(p, i, z) ==
  LET b == Blur(p)
      a == IF z - b < p.zs[1] THEN p.zs[1] ELSE z - b
      e == IF z + b + 1 > p.zs[Len(p.zs)] THEN p.zs[Len(p.zs)] ELSE z + b + 1
      Part(k) == LET x == IF a > p.zs[k] THEN a ELSE p.zs[k]
                     y == IF e < p.zs[k + 1] THEN e ELSE p.zs[k + 1]
                 IN IF x <= y THEN { Mix(p, k, i, x), Mix(p, k, i, y) } ELSE {}
  IN UNION { Part(k) : k \in 1..(Len(p.zs) - 1) }
NoData == 9999999
Bounds(p, st, i, v) ==                                           \* least and greatest that the component may be, of 255
  IF v = NoData THEN <<p.nan[i], p.nan[i]>>
  ELSE IF i = 4 THEN <<255, 255>>
  ELSE IF v <= st.lo THEN <<Lower(p, 1)[i], Lower(p, 1)[i]>>
  ELSE IF v >= st.hi THEN <<Upper(p, Len(p.zs) - 1)[i], Upper(p, Len(p.zs) - 1)[i]>>
  ELSE LET s == Near(p, i, Place(p, st, v)) IN <<Min(s) - 1, Max(s) + 1>>
Fits(p, st, v, got, m) == Len(got) = m /\ \A i \in 1..m : LET b == Bounds(p, st, i, v) IN got[i] >= b[1] /\ got[i] <= b[2]

Usual(p) == [there |-> TRUE, pal |-> 0, lo |-> p.zs[1], hi |-> p.zs[Len(p.zs)]]
Made(c) == IF c.k > Len(Pals) THEN [st |-> <<>>, exc |-> "UnsupportedArgumentError"]
           ELSE IF c.short # "" THEN [st |-> <<>>, exc |-> "ConsistentLengthError"]
           ELSE [st |-> <<[Usual(Pals[c.k]) EXCEPT !.pal = c.k]>>, exc |-> ""]
O(st, res) == [st |-> st, res |-> res]
Comps(c) == IF c.format = "hex" THEN 3 ELSE 4
(* outcomes but for the colors, which are within bounds *)
Outcomes(st, c) ==
  CASE c.op = "make" -> LET m == Made(c) IN { IF m.exc = "" THEN O(m.st[1], R(TRUE, "")) ELSE O(st, R(FALSE, m.exc)) }
    [] c.op = "set" -> { O(IF c.which = "lo" THEN [st EXCEPT !.lo = c.v] ELSE [st EXCEPT !.hi = c.v], R(TRUE, "")) }
    [] c.op = "bounds" -> { O(st, [R(TRUE, "") EXCEPT !.n = << <<st.lo, st.hi>> >>]) }
    [] OTHER -> IF c.format \in {"mlab", "255", "hex", "array", "map"}
                THEN { O(st, [R(TRUE, "") EXCEPT !.n = [k \in 1..Len(c.vs) |-> [i \in 1..Comps(c) |-> Bounds(Pals[st.pal], st, i, c.vs[k])[1]]]]) }
                ELSE { O(st, R(FALSE, "AttributeError")) }
Accept(st, c, r, s2) ==
  \E o \in Outcomes(st, c) : /\ o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc
                             /\ IF c.op # "look" \/ ~o.res.ok THEN o.res.n = r.n
                                ELSE Len(r.n) = Len(c.vs) /\ \A k \in 1..Len(r.n) : Fits(Pals[st.pal], st, c.vs[k], r.n[k], Comps(c))
(* one border may pass the other while both are moved *)
Calls(st) == Makes \cup (IF st.there THEN Sets \cup (IF st.lo < st.hi THEN Looks ELSE {}) ELSE {})
InitStates == { [there |-> FALSE, pal |-> 0, lo |-> 0, hi |-> 0] }
Inv(st) == st.there => st.pal \in 1..Len(Pals)
StepInv(st, c, o) == /\ c.op \in {"look", "bounds"} => o.st = st
                     /\ c.op = "look" => \A k \in 1..Len(o.res.n) : \A i \in 1..Len(o.res.n[k]) : o.res.n[k][i] \in -1..255
                     /\ (c.op = "make" /\ o.res.ok) => o.st.pal = c.k /\ o.st.hi - o.st.lo = Range(Pals[c.k])
                     \* stretching the palette does not change its first and last color
                     /\ c.op = "set" => Bounds(Pals[st.pal], o.st, 1, o.st.lo) = Bounds(Pals[st.pal], st, 1, st.lo)
StOf(j) == j
CallOf(j) == j
=============================================================================
