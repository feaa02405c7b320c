----------------------------- MODULE CapMatrix -----------------------------
(* Capacitance matrices: reading them from the log of a field solver, averaging.                                     *)
(* A log is a sequence of lines [k, n, name, vals]: k = "head" (a matrix begins), "dim" (its dimension n), "row"     *)
(* (name and values), "text" (anything else, at any place outside of a complete matrix).                             *)
EXTENDS Decimal, FiniteSets
Heads(log) == {i \in DOMAIN log : log[i].k = "head"}
LastHead(log) == CHOOSE i \in Heads(log) : \A j \in Heads(log) : j <= i
NoMatrix == [ok |-> FALSE, names |-> <<>>, rows |-> <<>>]
\* complete: the dimension n follows the head, and n rows of n values follow the dimension
Complete(log, h) == /\ h + 1 \in DOMAIN log /\ log[h + 1].k = "dim"
                    /\ \A i \in 1..log[h + 1].n : h + 1 + i \in DOMAIN log /\ log[h + 1 + i].k = "row" /\ Len(log[h + 1 + i].vals) = log[h + 1].n
\* exp: what the unit of the log makes of a value
Read(log, exp) == IF Heads(log) = {} THEN NoMatrix
                  ELSE LET h == LastHead(log) IN
                       IF ~Complete(log, h) THEN NoMatrix
                       ELSE LET n == log[h + 1].n IN
                            [ok |-> TRUE, names |-> [i \in 1..n |-> log[h + 1 + i].name],
                             rows |-> [i \in 1..n |-> [j \in 1..n |-> Shift(log[h + 1 + i].vals[j], exp)]]]
\* off-diagonal elements are replaced by the mean of the two that belong to the same pair
Averaged(rows) == [i \in DOMAIN rows |-> [j \in DOMAIN rows[i] |-> IF i = j THEN rows[i][j] ELSE Half(Add(rows[i][j], rows[j][i]))]]
Symmetric(rows) == \A i, j \in DOMAIN rows : rows[i][j] = rows[j][i]
=============================================================================
