------------------------------ MODULE Historic ------------------------------
(***************************************************************************)
(* A HistoricTime as it is written, read and moved, and the time elapsed   *)
(* since another one.                                                      *)
(*   t: the time, or << >> when there is none; z: its zone, "" or "UTC"    *)
(***************************************************************************)
EXTENDS Calendar
CONSTANTS Sets, Formats, Moves, Pasts, Says

R(ok, exc, text) == [ok |-> ok, exc |-> exc, text |-> text]

(* ---- writing ---- *)
H12(h) == IF h % 12 = 0 THEN 12 ELSE h % 12
Field(t, z, f) ==
  LET y == t[1]  m == t[2]  d == t[3]
      w == WeekDay(y, m, d)
      date == P2(m) \o "/" \o P2(d) \o "/" \o P2(y % 100)
      clock == P2(t[4]) \o ":" \o P2(t[5]) \o ":" \o P2(t[6])
  IN CASE f = "@Y" -> Pad(y, 4, "0")
       [] f = "@m" -> P2(m)  [] f = "@d" -> P2(d)  [] f = "@H" -> P2(t[4])  [] f = "@M" -> P2(t[5])  [] f = "@S" -> P2(t[6])
       [] f = "@f" -> Pad(t[7], 6, "0")
       [] f = "@y" -> P2(y % 100)
       [] f = "@C" -> P2(y \div 100)
       [] f = "@e" -> Pad(d, 2, " ")
       [] f = "@j" -> Pad(DayOfYear(y, m, d), 3, "0")
       [] f = "@I" -> P2(H12(t[4]))
       [] f = "@p" -> IF t[4] < 12 THEN "AM" ELSE "PM"
       [] f = "@a" -> DayShort[w + 1]  [] f = "@A" -> DayNames[w + 1]
       [] f = "@b" -> MonthShort[m]  [] f = "@B" -> MonthNames[m]
       [] f = "@w" -> ToString((w + 1) % 7)  [] f = "@u" -> ToString(w + 1)
       [] f = "@U" -> P2((DayOfYear(y, m, d) + 6 - ((w + 1) % 7)) \div 7)
       [] f = "@W" -> P2((DayOfYear(y, m, d) + 6 - w) \div 7)
       [] f = "@V" -> P2(IsoWeek(y, m, d))
       [] f = "@G" -> Pad(IsoYear(y, m, d), 4, "0")
       [] f = "@F" -> Pad(y, 4, "0") \o "-" \o P2(m) \o "-" \o P2(d)
       [] f = "@T" -> clock  [] f = "@X" -> clock  [] f = "@R" -> P2(t[4]) \o ":" \o P2(t[5])
       [] f = "@D" -> date  [] f = "@x" -> date
       [] f = "@c" -> DayShort[w + 1] \o " " \o MonthShort[m] \o " " \o Pad(d, 2, " ") \o " " \o clock \o " " \o ToString(y)
       [] f = "@z" -> IF z = "" THEN "" ELSE "+0000"
       [] f = "@Z" -> z
       [] f = "@@" -> "@"
       [] OTHER -> f
RECURSIVE Written(_, _, _)
Written(t, z, fs) == IF fs = <<>> THEN "" ELSE Field(t, z, fs[1]) \o Written(t, z, Tail(fs))
In(f, fs) == \E k \in 1..Len(fs) : fs[k] = f
Unreliable(fs) == In("@c", fs) \/ In("@x", fs)

(* ---- moving ---- *)
Moved(t, days, secs) ==          \* secs within a day either way
  LET s == t[4] * 3600 + t[5] * 60 + t[6] + secs
      n == Ordinal(t[1], t[2], t[3]) + days + (IF s < 0 THEN -1 ELSE IF s >= 86400 THEN 1 ELSE 0)
      r == s % 86400
  IN IF n < 1 \/ n > Last THEN <<>>
     ELSE FromOrdinal(n) \o <<r \div 3600, (r % 3600) \div 60, r % 60, t[7]>>

(* ---- elapsed ---- *)
(* whole days and seconds from a to b, microseconds dropped; <<-1, 0>> if b is before a *)
Span(a, b) ==
  LET s == (b[4] - a[4]) * 3600 + (b[5] - a[5]) * 60 + b[6] - a[6] - (IF b[7] < a[7] THEN 1 ELSE 0)
      d == Ordinal(b[1], b[2], b[3]) - Ordinal(a[1], a[2], a[3])
  IN IF s < 0 THEN (IF d <= 0 THEN <<-1, 0>> ELSE <<d - 1, s + 86400>>) ELSE IF d < 0 THEN <<-1, 0>> ELSE <<d, s>>
Units(p) == <<p[1] \div 7, p[1] % 7, p[2] \div 3600, (p[2] % 3600) \div 60, p[2] % 60>>
Names == <<"week", "day", "hour", "minute", "second">>
Count(n, unit) == ToString(n) \o " " \o unit \o (IF n = 1 THEN "" ELSE "s")
Said(u) == LET k == IF \E j \in 1..4 : u[j] # 0 THEN CHOOSE j \in 1..4 : u[j] # 0 /\ \A i \in 1..(j - 1) : u[i] = 0 ELSE 5
           IN IF k = 5 THEN Count(u[5], "second") ELSE Count(u[k], Names[k]) \o ", " \o Count(u[k + 1], Names[k + 1])
Below == [year |-> "month", month |-> "week", week |-> "day", day |-> "hour", hour |-> "minute", minute |-> "second"]

Outcomes(st, c) ==
  CASE c.op \in {"set", "read"} -> { [st |-> [t |-> c.t, z |-> c.z], res |-> R(TRUE, "", "")] }
    [] c.op = "say" -> { [st |-> st, res |-> IF c.unit \in DOMAIN Below THEN R(TRUE, "", Count(c.big, c.unit) \o ", " \o Count(c.small, Below[c.unit])) ELSE R(FALSE, "Exception", "")] }
    [] st.t = <<>> -> { [st |-> st, res |-> R(FALSE, "idle", "")] }
    [] c.op = "write" ->
         { [st |-> st, res |-> IF st.t[1] < 1900 /\ Unreliable(c.fs) /\ ~c.force THEN R(FALSE, "ValueError", "") ELSE R(TRUE, "", Written(st.t, st.z, c.fs))] }
    [] c.op = "again" -> { [st |-> st, res |-> R(TRUE, "", "")] }               \* written and read back
    [] c.op = "move" -> LET m == Moved(st.t, c.days, c.secs)
                        IN { IF m = <<>> THEN [st |-> st, res |-> R(FALSE, "OverflowError", "")]
                             ELSE [st |-> [t |-> m, z |-> st.z], res |-> R(TRUE, "", "")] }
    [] c.op = "since" -> { [st |-> st, res |-> IF Span(c.t, st.t)[1] < 0 THEN R(FALSE, "Exception", "") ELSE R(TRUE, "", Said(Units(Span(c.t, st.t))))] }
    [] c.op = "ago" -> { [st |-> st, res |-> R(TRUE, "", Said(Units(<<c.days, c.secs>>)))] }
(* written with force before 1900, only the year of %c is made right, and of four digits only *)
Vague(st, c) == c.op = "write" /\ Unreliable(c.fs) /\ st.t[1] < 1000
Accept(st, c, r, s2) == \E o \in Outcomes(st, c) :
  /\ o.st = s2 /\ o.res.ok = r.ok /\ o.res.exc = r.exc
  /\ r.kept
  /\ (r.ok /\ ~Vague(st, c)) => r.text = o.res.text
  /\ (r.ok /\ c.op = "since") => r.units = Units(Span(c.t, st.t))
  /\ (r.ok /\ c.op = "write") => (r.warned <=> (Unreliable(c.fs) /\ st.t[1] < 1900))

Calls(st) == Sets \cup Says \cup (IF st.t = <<>> THEN {} ELSE Formats \cup Moves \cup Pasts)
InitStates == { [t |-> <<>>, z |-> ""] }
Inv(st) == st.t # <<>> =>
  LET y == st.t[1]  m == st.t[2]  d == st.t[3] IN
  /\ y \in 1..9999 /\ m \in 1..12 /\ d \in 1..MonthDays(y, m) /\ st.t[4] \in 0..23 /\ st.t[5] \in 0..59 /\ st.t[6] \in 0..59
  /\ FromOrdinal(Ordinal(y, m, d)) = <<y, m, d>>
  /\ WeekDay(y, m, d) = Zeller(y, m, d)
  /\ IsoWeek(y, m, d) \in 1..53
  /\ Span(st.t, st.t) = <<0, 0>>
  (* whatever happened 400 years later has the same shape *)
  /\ y <= 9599 => /\ WeekDay(y, m, d) = WeekDay(y + 400, m, d) /\ Leap(y) = Leap(y + 400)
StepInv(st, c, o) ==
  /\ (c.op = "move" /\ o.res.ok) =>
       LET back == IF c.days < 0 \/ (c.days = 0 /\ c.secs < 0) THEN Span(o.st.t, st.t) ELSE Span(st.t, o.st.t)
           days == IF c.days < 0 THEN -c.days ELSE c.days
           secs == IF c.days < 0 \/ (c.days = 0 /\ c.secs < 0) THEN -c.secs ELSE c.secs
       IN IF secs >= 0 THEN back = <<days, secs>> ELSE back = <<days - 1, secs + 86400>>
  /\ c.op \in {"write", "since", "ago", "say", "again"} => o.st = st
StOf(j) == j
CallOf(j) == j
=============================================================================
