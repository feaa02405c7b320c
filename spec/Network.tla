------------------------------ MODULE Network ------------------------------
(* Networks of two-terminal elements of one kind, as seen from some of the nets.                                     *)
(* An element is [a, b, v] with an admittance v (rational >= 0), e.g. a capacitance. Nets are numbers.                *)
EXTENDS Rational
NRange(s) == {s[i] : i \in DOMAIN s}
NetsOfEls(es) == {e.a : e \in NRange(es)} \cup {e.b : e \in NRange(es)}
Pairs(N) == {p \in SUBSET N : Cardinality(p) = 2}
\* total admittance between two nets; an element with both ends at one net has no effect
Between(es, p) == QSum([i \in DOMAIN es |-> IF {es[i].a, es[i].b} = p THEN es[i].v ELSE Zero])
Admittance(es, N) == [p \in Pairs(N) |-> Between(es, p)]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN QAdd(f[x], SumOver(f, S \ {x}))
\* star-mesh transformation: what the other nets see of net n
Eliminate(Y, N, n) == LET S == SumOver([m \in N \ {n} |-> Y[{n, m}]], N \ {n}) IN
                      [p \in Pairs(N \ {n}) |-> IF S = Zero THEN Y[p]
                         ELSE LET i == CHOOSE i \in p : TRUE j == CHOOSE j \in p : j # i IN
                              QAdd(Y[p], QMul(QMul(Y[{n, i}], Y[{n, j}]), QInv(S)))]
RECURSIVE Seen(_, _, _)
Seen(Y, N, hidden) == IF hidden = {} THEN Y ELSE LET n == CHOOSE n \in hidden : TRUE IN Seen(Eliminate(Y, N, n), N \ {n}, hidden \ {n})
\* the admittances between the nets of `visible` that the network is equivalent to
Port(es, visible) == LET N == visible \cup NetsOfEls(es) IN Seen(Admittance(es, N), N, N \ visible)
=============================================================================
