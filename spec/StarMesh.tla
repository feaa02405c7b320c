------------------------------- MODULE StarMesh -------------------------------
(* A resistor network: nodes (points), conductances of pairs of nodes (exact rationals <<num, den>>).                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Rat(n, d) == LET g == Gcd(Abs(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
Plus(p, q) == LET g == Gcd(p[2], q[2]) IN Rat(p[1] * (q[2] \div g) + q[1] * (p[2] \div g), (p[2] \div g) * q[2])
Times(p, q) == LET x == Rat(p[1], q[2])  y == Rat(q[1], p[2]) IN <<x[1] * y[1], x[2] * y[2]>>
Over(p, q) == Times(p, IF q[1] < 0 THEN <<-q[2], -q[1]>> ELSE <<q[2], q[1]>>)
Minus(p, q) == Plus(p, <<-q[1], q[2]>>)
Sum(f) == FoldSet(LAMBDA x, a : Plus(a, f[x]), <<0, 1>>, DOMAIN f)     \* of a function with rational values

\* g = [nodes, c], c : pairs {a, b} -> conductance
Empty == [nodes |-> {}, c |-> <<>>]
Node(g, n) == [g EXCEPT !.nodes = @ \cup {n}]
Add(g, a, b, v) ==
    [g EXCEPT !.c = [e \in DOMAIN g.c \cup {{a, b}} |-> IF e # {a, b} THEN g.c[e] ELSE IF e \in DOMAIN g.c THEN Plus(g.c[e], v) ELSE v]]
Star(g, n) == {m \in g.nodes : m # n /\ {n, m} \in DOMAIN g.c}
Drop(g, n) == [nodes |-> g.nodes \ {n}, c |-> [e \in {e \in DOMAIN g.c : n \notin e} |-> g.c[e]]]
\* the star of a node becomes a mesh of its neighbours
Elim(g, n) ==
    LET st == Star(g, n)
        total == Sum([m \in st |-> g.c[{n, m}]])
        pairs == {e \in SUBSET st : Cardinality(e) = 2}
        Mesh(e) == LET a == CHOOSE a \in e : TRUE  b == CHOOSE b \in e : b # a
                   IN Over(Times(g.c[{n, a}], g.c[{n, b}]), total)
        cut == Drop(g, n)
    IN IF total[1] = 0 THEN cut ELSE
       [cut EXCEPT !.c = [e \in DOMAIN cut.c \cup pairs |->
            IF e \notin pairs THEN cut.c[e] ELSE IF e \notin DOMAIN cut.c THEN Mesh(e) ELSE Plus(cut.c[e], Mesh(e))]]
\* b becomes a
Join(g, a, b) ==
    LET Far(e) == CHOOSE m \in e : m # b
    IN FoldSet(LAMBDA e, h : IF Far(e) = a THEN h ELSE Add(h, a, Far(e), g.c[e]), Drop(g, b), {e \in DOMAIN g.c : b \in e})
ElimAll(g, keep) == FoldLeft(LAMBDA h, n : Elim(h, n), g, SetToSeq(g.nodes \ keep))

\* Kirchhoff: the current into the network at node i, for potentials u
Current(g, u, i) == Sum([m \in Star(g, i) |-> Times(g.c[{i, m}], Minus(u[i], u[m]))])
\* the potential of a node without a current of its own
Floating(g, u, n) == LET st == Star(g, n)
                         total == Sum([m \in st |-> g.c[{n, m}]])
                     IN IF total[1] = 0 THEN <<0, 1>> ELSE Over(Sum([m \in st |-> Times(g.c[{n, m}], u[m])]), total)
\* geometry: nodes at points <<x, y>>
OnEdge(p, e) == /\ (e.x2 - e.x1) * (p[2] - e.y1) = (e.y2 - e.y1) * (p[1] - e.x1)
                /\ p[1] >= (IF e.x1 < e.x2 THEN e.x1 ELSE e.x2) /\ p[1] <= (IF e.x1 < e.x2 THEN e.x2 ELSE e.x1)
                /\ p[2] >= (IF e.y1 < e.y2 THEN e.y1 ELSE e.y2) /\ p[2] <= (IF e.y1 < e.y2 THEN e.y2 ELSE e.y1)
\* in a box whose upper right corner is cut out from (cx, cy) on; the border is inside
InBox(p, b) == b.x1 <= p[1] /\ p[1] <= b.x2 /\ b.y1 <= p[2] /\ p[2] <= b.y2 /\ ~ (p[1] > b.cx /\ p[2] > b.cy)
=============================================================================
