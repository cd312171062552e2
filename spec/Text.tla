-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Numbers as people read them: functions of their arguments, so that the  *)
(* only state is the last text, which is read again by commify (once is    *)
(* as good as twice).                                                      *)
(* A decimal number is [m, e]: m * 10^e.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Asks

R(ok, exc, text, m, e) == [ok |-> ok, exc |-> exc, text |-> text, m |-> m, e |-> e]
Pow[k \in 0..9] == IF k = 0 THEN 1 ELSE 10 * Pow[k - 1]
RECURSIVE Digits(_)
Digits(m) == IF m < 10 THEN 1 ELSE 1 + Digits(m \div 10)
Abs(m) == IF m < 0 THEN -m ELSE m

(* ---- roman numerals, digit by digit ---- *)
Roman(d, one, five, ten) ==
  CASE d = 0 -> "" [] d = 1 -> one [] d = 2 -> one \o one [] d = 3 -> one \o one \o one [] d = 4 -> one \o five [] d = 5 -> five
    [] d = 6 -> five \o one [] d = 7 -> five \o one \o one [] d = 8 -> five \o one \o one \o one [] d = 9 -> one \o ten
ToRoman(n) == Roman(n \div 1000, "M", "", "") \o Roman((n \div 100) % 10, "C", "D", "M") \o Roman((n \div 10) % 10, "X", "L", "C") \o Roman(n % 10, "I", "V", "X")

(* ---- separators ---- *)
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE s[1] \o Join(Tail(s))
RECURSIVE Lead(_, _)
Lead(s, k) == IF k > Len(s) \/ (IF k <= Len(s) THEN ~IsDigit(s[k]) ELSE TRUE) THEN k ELSE Lead(s, k + 1)      \* the first place from k on without a digit
RECURSIVE Grouped(_, _)
Grouped(d, sep) == IF Len(d) <= 3 THEN Join(d) ELSE Grouped(SubSeq(d, 1, Len(d) - 3), sep) \o sep \o Join(SubSeq(d, Len(d) - 2, Len(d)))
Commas(s, sep) == LET from == IF s # <<>> /\ s[1] = "-" THEN 2 ELSE 1
                      to == Lead(s, from)
                  IN (IF from = 2 THEN "-" ELSE "") \o Grouped(SubSeq(s, from, to - 1), sep) \o Join(SubSeq(s, to, Len(s)))
RECURSIVE Ds(_)
Ds(n) == IF n < 10 THEN <<ToString(n)>> ELSE Append(Ds(n \div 10), ToString(n % 10))
CommaInt(n) == (IF n < 0 THEN "-" ELSE "") \o Grouped(Ds(Abs(n)), ",")

(* ---- rounding: the multiples of p that n may be rounded to (both when it is half way) ---- *)
Rounded(n, p) == LET f == p * (n \div p)
                     r == n - f
                 IN IF r = 0 THEN {n} ELSE IF 2 * r < p THEN {f} ELSE IF 2 * r > p THEN {f + p} ELSE {f, f + p}
Sig(m, digits) ==          \* m to so many digits
  LET d == Digits(Abs(m)) IN IF d <= digits THEN {m} ELSE IF m < 0 THEN { -x : x \in Rounded(-m, Pow[d - digits]) } ELSE Rounded(m, Pow[d - digits])
RECURSIVE Norm(_, _)
Norm(m, e) == IF m = 0 THEN <<0, 0>> ELSE IF m % 10 = 0 THEN Norm(m \div 10, e + 1) ELSE <<m, e>>
RECURSIVE Whole(_, _)
Whole(m, e) == IF m < 0 THEN -Whole(-m, e) ELSE IF e >= 0 THEN m * Pow[e] ELSE IF e < -9 THEN 0 ELSE m \div Pow[-e]   \* towards 0
Pad0(s, w) == LET f[k \in 0..w] == IF k = 0 THEN s ELSE "0" \o f[k - 1] IN IF Len(s) >= w THEN s ELSE f[w - Len(s)]
(* a positive decimal with at least one digit after the point *)
Zeros(k) == LET f[j \in 0..k] == IF j = 0 THEN "" ELSE "0" \o f[j - 1] IN f[k]
Show(m, e) == LET n == Norm(m, e) IN
  IF n[2] >= 0 THEN ToString(n[1]) \o Zeros(n[2]) \o ".0"
  ELSE LET k == -n[2] IN ToString(n[1] \div Pow[k]) \o "." \o Pad0(ToString(n[1] % Pow[k]), k)

(* ---- dollars: m * 10^e of them, e >= 0 ---- *)
Units == [short |-> <<"K", "M", "B">>, long |-> <<" thousand", " million", " billion">>]
Dollars(c) ==
  LET size == Digits(c.m) + c.e
      k == IF c.m = 0 \/ size <= 3 THEN 0 ELSE IF size <= 6 THEN 1 ELSE IF size <= 9 THEN 2 ELSE 3
      (* what rounds up to the next unit may be said in that unit *)
      Said(x, j) == "$" \o Show(x, c.e - 3 * j) \o Units[c.mode][j]
  IN UNION { IF k = 0 THEN {"$" \o CommaInt(Whole(x, c.e))}
             ELSE {Said(x, k)} \cup (IF k < 3 /\ Digits(x) + c.e > 3 * k + 3 THEN {Said(x, k + 1)} ELSE {}) : x \in Sig(c.m, c.digits) }

(* ---- populations ---- *)
Short(c) ==
  IF c.n < 1000 THEN { ToString(c.n) }
  ELSE IF c.million /\ c.n >= 1000000 THEN { CommaInt(x \div 1000000) \o "m" : x \in Rounded(c.n, 1000) \cup Rounded(c.n, 1000000) }
  ELSE { CommaInt(x \div 1000) \o "k" : x \in Rounded(c.n, 1000) }

(* ---- multiples: v and unit in 10^-c.k ---- *)
Multiples(c) == CASE c.op = "round" -> Rounded(c.v, c.unit)
                  [] c.op = "floor" -> {c.unit * (c.v \div c.unit)}
                  [] c.op = "ceil" -> {-(c.unit * ((-c.v) \div c.unit))}

No(exc) == { R(FALSE, exc, "", 0, 0) }
Says(texts) == { R(TRUE, "", t, 0, 0) : t \in texts }
Nums(xs, e) == { LET n == Norm(x, e) IN R(TRUE, "", "", n[1], n[2]) : x \in xs }
Results(st, c) ==
  CASE c.op = "roman" -> IF c.n < 1 \/ c.n > 3999 THEN No("ValueError") ELSE Says({ToRoman(c.n)})
    [] c.op = "commify" -> Says({Commas(c.s, c.sep)})
    [] c.op = "again" -> Says({st.last})
    [] c.op = "precision" -> IF c.mode = "int" THEN Nums({ Whole(x, c.e) : x \in Sig(c.m, c.digits) }, 0) ELSE Nums(Sig(c.m, c.digits), c.e)
    [] c.op = "dollars" -> Says(Dollars(c))
    [] c.op = "pop" -> Says({ CommaInt(x) : x \in Rounded(c.n, 1000) })
    [] c.op = "short" -> Says(Short(c))
    [] c.op \in {"round", "floor", "ceil"} -> Nums(Multiples(c), -c.k)
Keeps(c) == IF c.op = "commify" THEN c.sep # "" ELSE c.op = "pop"
Outcomes(st, c) == { [st |-> [last |-> IF r.ok /\ Keeps(c) THEN r.text ELSE st.last], res |-> r] : r \in Results(st, c) }
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) : o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc /\ o.res.text = r.text /\ o.res.m = r.m /\ o.res.e = r.e

Calls(st) == Asks
InitStates == { [last |-> ""] }
Inv(st) == TRUE
StepInv(st, c, o) ==
  /\ c.op = "round" => \A x \in Multiples(c) : 2 * Abs(x - c.v) <= c.unit /\ x % c.unit = 0
  /\ c.op = "floor" => \A x \in Multiples(c) : x <= c.v /\ c.v - x < c.unit /\ x % c.unit = 0
  /\ c.op = "ceil" => \A x \in Multiples(c) : x >= c.v /\ x - c.v < c.unit /\ x % c.unit = 0
  /\ (c.op = "roman" /\ c.n \in 1..3998) => ToRoman(c.n) # ToRoman(c.n + 1)
StOf(j) == j
CallOf(j) == j
=============================================================================
