------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar, years 1 to 9999, and text of numbers. *)
(* A time is <<year, month, day, hour, minute, second, microsecond>>.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DayOfYear(y, m, d) == Before[m] + d + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
DaysBefore(y) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400
Ordinal(y, m, d) == DaysBefore(y) + DayOfYear(y, m, d)           \* 1 January of year 1 is 1
Last == Ordinal(9999, 12, 31)
FromOrdinal(n) ==
  LET guess == 1 + (n * 4) \div 1461 + (IF n > 700000 THEN (n - 1) \div 48696 - (n - 1) \div 48699 ELSE 0)
      y == CHOOSE v \in (guess - 3)..(guess + 3) : DaysBefore(v) < n /\ n <= DaysBefore(v + 1)
      r == n - DaysBefore(y)
      m == CHOOSE k \in 1..12 : DayOfYear(y, k, 1) <= r /\ r < DayOfYear(y, k, 1) + MonthDays(y, k)
  IN <<y, m, r - DayOfYear(y, m, 1) + 1>>
(* Monday is 0: 1 January of year 1 was one *)
WeekDay(y, m, d) == (Ordinal(y, m, d) - 1) % 7
(* another way to it: Zeller's congruence, Saturday is 0 *)
Zeller(y, m, d) == LET mm == IF m < 3 THEN m + 12 ELSE m
                       yy == IF m < 3 THEN y - 1 ELSE y
                   IN ((d + (13 * (mm + 1)) \div 5 + yy + yy \div 4 - yy \div 100 + yy \div 400 + 5) % 7)   \* Monday is 0
(* ISO 8601: the week of a day belongs to the year its Thursday is in *)
IsoYear(y, m, d) == LET thu == Ordinal(y, m, d) - WeekDay(y, m, d) + 3
                    IN IF thu <= DaysBefore(y) THEN y - 1 ELSE IF thu > DaysBefore(y + 1) THEN y + 1 ELSE y
IsoWeek(y, m, d) == (Ordinal(y, m, d) - WeekDay(y, m, d) + 3 - DaysBefore(IsoYear(y, m, d)) - 1) \div 7 + 1

Pad(n, w, c) == LET s == ToString(n) IN IF Len(s) >= w THEN s ELSE LET f[k \in 0..w] == IF k = 0 THEN s ELSE c \o f[k - 1] IN f[w - Len(s)]
P2(n) == Pad(n, 2, "0")
DayNames == <<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>
DayShort == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
MonthNames == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>
MonthShort == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
=============================================================================
