------------------------------ MODULE Geometry ------------------------------
(***************************************************************************)
(* Polygons and quadrilaterals on an integer lattice: east, north, down.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

(* ---- polygons ---- *)
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Pairs(p) == (Len(p) - 1) \div 2

QuadsOfPoly(p) == [k \in 1..(Pairs(p) - 1) |-> <<p[k], p[k+1], p[Len(p) - k - 1], p[Len(p) - k]>>]
RECURSIVE Flat(_, _)
Flat(ss, k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o Flat(ss, k + 1)
QuadsOf(polys) == Flat([k \in 1..Len(polys) |-> QuadsOfPoly(polys[k])], 1)
GroupsOf(polys) == Flat([k \in 1..Len(polys) |-> [m \in 1..(Pairs(polys[k]) - 1) |-> k - 1]], 1)
VertexGroups(polys) == Flat([k \in 1..Len(polys) |-> [m \in 1..Pairs(polys[k]) |-> k - 1]], 1)

Normal(q) == Cross(Sub(q[2], q[1]), Sub(q[4], q[1]))
Off(q) == Dot(Normal(q), Sub(q[3], q[1]))
Sq(v) == Dot(v, v)
Flatness(q) == IF Off(q) = 0 THEN "flat"
               ELSE IF Off(q) * Off(q) * 156 > Sq(Normal(q)) * Sq(Sub(q[4], q[3])) THEN "twisted"   \* over 8 %
               ELSE "between"
Level(q) == q[1][3] = q[2][3] /\ q[3][3] = q[4][3]

(* ---- orientation of the quadrilaterals of a QuadRupture ---- *)
Right(q) == LET a == Sub(q[3], q[1])
                b == Sub(q[2], q[1])
            IN a[1] * b[2] - a[2] * b[1]
Turned(q) == <<q[2], q[1], q[4], q[3]>>
Oriented(q) == IF Right(q) > 0 THEN {q} ELSE IF Right(q) < 0 THEN {Turned(q)} ELSE {q, Turned(q)}
Choices(qs) == { [k \in 1..Len(qs) |-> IF k \in T THEN Turned(qs[k]) ELSE qs[k]] :
                      T \in { S \cup { k \in 1..Len(qs) : Right(qs[k]) < 0 } : S \in SUBSET { k \in 1..Len(qs) : Right(qs[k]) = 0 } } }

Near(a, b, tol) == a - b <= tol /\ b - a <= tol

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Sqrt(n) == Root(n, 0, 46340)
Hundredths(n2) == IF n2 < 200000 THEN Sqrt(10000 * n2) ELSE 10 * Sqrt(100 * n2)     \* 100 * sqrt(n2)
Sum(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k-1] + s[k] IN f[Len(s)]

(* inside the surface projection of a convex quadrilateral: 1, on its rim: 0, outside: -1 *)
Side(a, b, s) == LET x == (b[1] - a[1]) * (s[2] - a[2]) - (b[2] - a[2]) * (s[1] - a[1]) IN IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
In(q, s) == LET d == { Side(q[k], q[(k % 4) + 1], s) : k \in 1..4 }
            IN IF d = {1} \/ d = {-1} THEN 1 ELSE IF 1 \in d /\ -1 \in d THEN -1 ELSE 0
=============================================================================
