--------------------------- MODULE CapMatrixModel ---------------------------
(* A solver that refines its result writes matrix after matrix, and may end at any line.                              *)
EXTENDS CapMatrix, TLC
CONSTANTS MaxIter, Vals
VARIABLES log, done, cur, pc
vars == <<log, done, cur, pc>>
Mats(n) == [1..n -> [1..n -> {<<v, 0>> : v \in Vals}]]
Line(k, n, name, vals) == [k |-> k, n |-> n, name |-> name, vals |-> vals]
Init == log = <<>> /\ done = <<>> /\ cur = <<>> /\ pc = "text"
Text == pc = "text" /\ Len(log) < 12 /\ (IF log = <<>> THEN TRUE ELSE log[Len(log)].k # "text") /\ log' = Append(log, Line("text", 0, "", <<>>)) /\ UNCHANGED <<done, cur, pc>>
Begin == pc = "text" /\ Len(done) < MaxIter /\ \E n \in 1..2 : \E m \in Mats(n) : cur' = m /\ log' = Append(log, Line("head", 0, "", <<>>)) /\ pc' = "dim" /\ UNCHANGED done
Dim == pc = "dim" /\ log' = Append(log, Line("dim", Len(cur), "", <<>>)) /\ pc' = "r1" /\ UNCHANGED <<done, cur>>
RowNo == IF pc = "r1" THEN 1 ELSE 2
Row == /\ pc \in {"r1", "r2"} /\ log' = Append(log, Line("row", 0, "c", cur[RowNo]))
       /\ IF RowNo = Len(cur) THEN pc' = "text" /\ done' = Append(done, cur) ELSE pc' = "r2" /\ done' = done
       /\ UNCHANGED cur
Next == Text \/ Begin \/ Dim \/ Row
Spec == Init /\ [][Next]_vars
\* only the last matrix is read, and only if it is complete
LastOrNone == LET r == Read(log, 0) IN IF pc = "text" /\ done # <<>> THEN r.ok /\ r.rows = done[Len(done)] ELSE ~r.ok
AvgOk == pc = "text" /\ done # <<>> =>
            LET m == done[Len(done)] a == Averaged(m) IN
            Symmetric(a) /\ (Symmetric(m) => a = m) /\ Averaged(a) = a
            /\ (\A i \in DOMAIN m : a[i][i] = m[i][i]) /\ (\A i, j \in DOMAIN m : Add(a[i][j], a[j][i]) = Add(m[i][j], m[j][i]))
=============================================================================
