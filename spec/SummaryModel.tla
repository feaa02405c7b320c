---------------------------- MODULE SummaryModel ----------------------------
(* The tables are built entry by entry, cell by cell, in any order and orientation, then merged.                  *)
EXTENDS Summary, TLC
CONSTANTS Nets, CapV, ResV, MaxEntries, Cells
VARIABLES log, tab
vars == <<log, tab>>
Keys == {{a, b} : a \in Nets, b \in Nets}
NoR == -1                                     \* no resistor yet; otherwise conductance, 0 = short
Empty == [c |-> [k \in Keys |-> 0], r |-> [k \in Keys |-> NoR]]
Par(g, h) == CASE g = NoR -> h [] h = NoR -> g [] g = 0 \/ h = 0 -> 0 [] OTHER -> g + h
Init == log = [x \in Cells |-> <<>>] /\ tab = [x \in Cells |-> Empty]
Total == LET RECURSIVE s(_) s(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(log[x]) + s(S \ {x}) IN s(Cells)
AddC(x, a, b, v) == /\ Total < MaxEntries
                    /\ log' = [log EXCEPT ![x] = Append(@, [t |-> "C", a |-> a, b |-> b, v |-> v])]
                    /\ tab' = [tab EXCEPT ![x].c[{a, b}] = @ + v]
AddR(x, a, b, v) == /\ Total < MaxEntries
                    /\ log' = [log EXCEPT ![x] = Append(@, [t |-> "R", a |-> a, b |-> b, v |-> v])]
                    /\ tab' = [tab EXCEPT ![x].r[{a, b}] = Par(@, IF v = 0 THEN 0 ELSE LCM \div v)]
Next == \E x \in Cells, a \in Nets, b \in Nets : \/ \E v \in CapV : AddC(x, a, b, v)
                                                 \/ \E v \in ResV : AddR(x, a, b, v)
Spec == Init /\ [][Next]_vars
Flat == LET RECURSIVE f(_) f(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN log[x] \o f(S \ {x}) IN f(Cells)
MergedC(k) == LET RECURSIVE s(_) s(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN tab[x].c[k] + s(S \ {x}) IN s(Cells)
MergedR(k) == LET RECURSIVE s(_) s(S) == IF S = {} THEN NoR ELSE LET x == CHOOSE x \in S : TRUE IN Par(tab[x].r[k], s(S \ {x})) IN s(Cells)
MergeIsFlat == \A k \in Keys : /\ MergedC(k) = CapOf(Flat, k)
                               /\ IF k \notin Pairs(Flat, "R") THEN MergedR(k) = NoR
                                  ELSE IF Shorted(Flat, k) THEN MergedR(k) = 0 ELSE MergedR(k) = Cond(Flat, k)
\* nothing is lost
Conservation == LET RECURSIVE s(_) s(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN MergedC(k) + s(S \ {k})
                IN s(Keys) = FoldLeft(LAMBDA n, e : n + (IF e.t = "C" THEN e.v ELSE 0), 0, Flat)
\* a resistance is at most the smallest of its resistors
AtMostSmallest == \A k \in Pairs(Flat, "R") : \A e \in Range(Of(Flat, "R", k)) :
                      LET r == ResOf(Flat, k) IN r[1] <= e.v * r[2]
=============================================================================
