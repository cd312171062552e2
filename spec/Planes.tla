------------------------------- MODULE Planes -------------------------------
(***************************************************************************)
(* A quadrilateral in hand, its directions, slip on it and a mesh of it.   *)
(*   q: its four corners <<east, north, up>> in kilometres from the place   *)
(*      where it was laid out                                              *)
(* Directions are in thousandths, dips and slips by their components.      *)
(***************************************************************************)
EXTENDS Sines, FiniteSets, TLC
CONSTANTS Quads, Rakes, Spacings, Slips, Mechs, Apart, Known

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Times(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Sqrt(n) == Root(n, 0, 46340)
Div(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((-2 * a + b) \div (2 * b))       \* to the nearest; b > 0
(* lengths in hundredths *)
Long(v) == LET n == Dot(v, v) IN IF n = 0 THEN 0 ELSE IF n < 200000 THEN Sqrt(10000 * n) ELSE 100 * Sqrt(n)
(* a direction in thousandths *)
Unit(v) == LET m == Max(Abs(v[1]), Max(Abs(v[2]), Abs(v[3])))
               w == IF m < 8000 THEN Times(16000 \div m, v) ELSE v
               l == Sqrt(Dot(w, w))
           IN [k \in 1..3 |-> Div(1000 * w[k], l)]
Close(a, b, tol) == \A k \in 1..3 : Abs(a[k] - b[k]) <= tol

(* ---- a quadrilateral ---- *)
Top(q) == Sub(q[2], q[1])
Side(q) == Sub(q[4], q[1])
Normal(q) == Unit(Cross(Side(q), Top(q)))
Strike(q) == Unit(Top(q))
Down(q) == Unit(Cross(Top(q), Cross(Side(q), Top(q))))
Width(q) == Div(Dot(Down(q), Side(q)), 10)                               \* hundredths
Reverse(q) == <<q[2], q[1], q[4], q[3]>>

(* ---- slip: angles in quarter degrees, sines times 10000 ---- *)
Sin(h) == LET r == h % 1440
          IN IF r <= 360 THEN Table[1 + r] ELSE IF r <= 720 THEN Table[1 + 720 - r] ELSE IF r <= 1080 THEN -Table[1 + r - 720] ELSE -Table[1 + 1440 - r]
Cos(h) == Sin(h + 360)
Mul(a, b) == Div(a * b, 10000)
(* along strike by the cosine of the rake, up the plane by its sine; the plane dips to the right *)
Along(s, d, r) == <<Mul(Cos(r), Sin(s)), Mul(Cos(r), Cos(s)), 0>>
Upward(s, d, r) == <<-Mul(Mul(Sin(r), Cos(d)), Cos(s)), Mul(Mul(Sin(r), Cos(d)), Sin(s)), Mul(Sin(r), Sin(d))>>
Slip(part, s, d, r) == CASE part = "ss" -> Along(s, d, r) [] part = "ds" -> Upward(s, d, r) [] OTHER -> Add(Along(s, d, r), Upward(s, d, r))
(* the finding: the east component of what goes up the plane has the wrong sign *)
Mirror(v) == <<-v[1], v[2], v[3]>>
Found(part, s, d, r) == CASE part = "ss" -> Along(s, d, r) [] part = "ds" -> Mirror(Upward(s, d, r)) [] OTHER -> Add(Along(s, d, r), Mirror(Upward(s, d, r)))
SlipOn(q, r) == [k \in 1..3 |-> Div(Cos(r) * Strike(q)[k] - Sin(r) * Down(q)[k], 10000)]
(* the finding: the same, and up is down *)
FoundOn(q, r) == LET a == Strike(q)
                     b == Down(q)
                     v == <<Cos(r) * a[1] + Sin(r) * b[1], Cos(r) * a[2] - Sin(r) * b[2], Sin(r) * b[3]>>
                 IN Unit([k \in 1..3 |-> Div(v[k], 1000)])

(* ---- mechanisms: tenths of a degree; <<>> is none ---- *)
Mech(r) == IF r = <<>> THEN "ALL"
           ELSE CASE Abs(r[1]) <= 300 \/ (1500 <= Abs(r[1]) /\ Abs(r[1]) <= 1800) -> "SS"
                  [] -1200 <= r[1] /\ r[1] <= -600 -> "NM"
                  [] 600 <= r[1] /\ r[1] <= 1200 -> "RS"
                  [] OTHER -> "ALL"

(* ---- meshes: as many nodes as the spacing (tenths of a kilometre) asks for ---- *)
Steps(len, dx) == { n \in {(len \div (10 * dx)), (len \div (10 * dx)) + 1} : 2 * Abs(len - 10 * n * dx) <= 10 * dx + 2 }     \* len in hundredths: the nearest, either at a tie
Counts(len, dx) == { Max(n + 1, 2) : n \in Steps(len, dx) }
Column(q, nx, i) == Add(Times(nx - 1 - i, Side(q)), Times(i, Sub(q[3], q[2])))        \* times nx - 1
RECURSIVE Total(_, _, _)
Total(q, nx, i) == IF i = nx THEN 0 ELSE Long(Column(q, nx, i)) + Total(q, nx, i + 1)
Mean(q, nx) == Div(Total(q, nx, 0), nx * (nx - 1))
Node(q, nx, ny, j, i) ==                                                  \* hundredths; j down, i along
  LET t == Times(i, Top(q))
      b == Times(i, Sub(q[3], q[4]))
      n == Add(Times((ny - 1) * (nx - 1), q[1]), Add(Times(ny - 1 - j, t), Times(j, Add(b, Times(nx - 1, Side(q))))))
  IN [k \in 1..3 |-> Div(100 * n[k], (nx - 1) * (ny - 1))]
MeshOk(q, dx, m) == /\ m.nx \in Counts(Long(Top(q)), dx) /\ m.ny \in Counts(Mean(q, m.nx), dx)
                    /\ DOMAIN m.nodes = 1..m.ny /\ \A j \in 1..m.ny : DOMAIN m.nodes[j] = 1..m.nx
                    /\ \A j \in 0..(m.ny - 1) : \A i \in 0..(m.nx - 1) : Close(m.nodes[1 + j][1 + i], Node(q, m.nx, m.ny, j, i), 1)
                    /\ m.cells

(* ---- is it level, and where should the third corner be ---- *)
Off(a, b, c, p) == LET n == Cross(Sub(b, a), Sub(c, a))
                   IN IF n = <<0, 0, 0>> THEN 0 ELSE Div(Abs(Dot(Unit(n), Sub(p, a))), 10)                 \* hundredths
Flat(q) == LET d == Long(Sub(q[4], q[3]))
               off == 100 * Off(q[1], q[2], q[4], q[3])
           IN (IF off <= 5 * d + 200 THEN {TRUE} ELSE {}) \cup (IF off >= 5 * d - 200 THEN {FALSE} ELSE {})
Third(q) == [k \in 1..3 |-> 100 * q[4][k] + Div(Strike(q)[k] * Long(Sub(q[4], q[3])), 1000)]

No == [nx |-> 0, ny |-> 0, nodes |-> <<>>, cells |-> TRUE]
R == [ok |-> TRUE, exc |-> "", v |-> <<>>, says |-> "", mesh |-> No]
Tilt(q) == 3 + Max(Abs(q[1][1]), Abs(q[1][2])) \div 3                         \* the vertical turns along the earth
Accept(st, c, r, s2) ==
  LET q == st.q IN
  /\ r.ok /\ r.exc = "" /\ (c.op # "mesh" => r.mesh = No) /\ (c.op \notin {"mech", "flat"} => r.says = "")
  /\ s2 = IF c.op = "be" THEN [q |-> c.q] ELSE IF c.op = "reverse" THEN [q |-> Reverse(q)] ELSE st
  /\ CASE c.op \in {"be", "reverse"} -> r.v = <<>>
       [] c.op = "normal" -> Close(r.v, Normal(q), 2)
       [] c.op = "strike" -> Close(r.v, Strike(q), 2)
       [] c.op = "down" -> Close(r.v, Down(q), 2)
       [] c.op = "vertical" -> Close(r.v, <<0, 0, 1000>>, Tilt(q))
       [] c.op = "sizes" -> /\ Abs(r.v[1] - Long(Top(q))) <= 2 /\ Abs(r.v[2] - Width(q)) <= 3
                            /\ Abs(r.v[3] - Normal(q)[3]) <= Tilt(q)                     \* the cosine of the dip
       [] c.op = "flat" -> /\ r.says \in { IF f THEN "yes" ELSE "no" : f \in Flat(q) } /\ Close(r.v, Third(q), 5)
       [] c.op = "mesh" -> r.v = <<>> /\ MeshOk(q, c.dx, r.mesh)
       [] c.op = "slipon" -> Close(r.v, SlipOn(q, c.rake), 12) \/ ("quad" \in Known /\ Close(r.v, FoundOn(q, c.rake), 20))
       [] c.op = "slip" -> Close(r.v, Slip(c.part, c.strike, c.dip, c.rake), 5) \/ ("local" \in Known /\ Close(r.v, Found(c.part, c.strike, c.dip, c.rake), 5))
       [] c.op = "mech" -> r.v = <<>> /\ r.says = Mech(c.rake)
       [] c.op = "apart" -> DOMAIN r.v = {1} /\ Abs(r.v[1] - Off(c.a, c.b, c.c, c.p)) <= 2 + Off(c.a, c.b, c.c, c.p) \div 500

Calls(st) ==
  { [op |-> o] : o \in {"reverse", "normal", "strike", "down", "vertical", "sizes", "flat"} }
  \cup { [op |-> "be", q |-> x] : x \in Quads } \cup { [op |-> "mesh", dx |-> d] : d \in Spacings } \cup { [op |-> "slipon", rake |-> r] : r \in Rakes }
  \cup Slips \cup Mechs \cup Apart
O(st, res) == [st |-> st, res |-> res]
Outcomes(st, c) ==
  { O(IF c.op = "be" THEN [q |-> c.q] ELSE IF c.op = "reverse" THEN [q |-> Reverse(st.q)] ELSE st, R) }
InitStates == { [q |-> x] : x \in Quads }
Inv(st) == LET q == st.q IN
  /\ Close(Normal(Reverse(q)), Times(-1, Normal(q)), 2) \/ Sub(Side(q), Sub(q[3], q[2])) # <<0, 0, 0>>
  /\ Abs(Dot(Normal(q), Strike(q))) <= 3000 /\ Abs(Dot(Normal(q), Down(q))) <= 3000 /\ Abs(Dot(Strike(q), Down(q))) <= 3000
  /\ \A c \in Slips : LET v == Slip("all", c.strike, c.dip, c.rake) IN Abs(Dot(v, v) - 100000000) <= 100000       \* a unit
StepInv(st, c, o) == (c.op = "reverse" => Reverse(o.st.q) = st.q) /\ (c.op \notin {"be", "reverse"} => o.st = st)
StOf(j) == j
CallOf(j) == j
=============================================================================
