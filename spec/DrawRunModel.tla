---------------------------- MODULE DrawRunModel ----------------------------
(* A run of netlist svg: arguments are checked, the netlist is read, a cell is chosen, its JSON is written, the tool    *)
(* is called.  A run ends well exactly if the cell asked for (or the only top cell) was drawn by a tool that succeeded.  *)
EXTENDS Draw
CONSTANTS Names
VARIABLES rq, at, cell, json, calls, end
vars == <<rq, at, cell, json, calls, end>>
Circs == {s \in UNION {[1..k -> [name : Names, top : BOOLEAN]] : k \in 0..2} : Cardinality({x.name : x \in Range(s)}) = Len(s)}
Init == /\ rq \in [circs : Circs, want : Names \cup {""}, exe : {"ok", "fails", "missing"}, input : BOOLEAN]
        /\ at = "args" /\ cell = "" /\ json = "" /\ calls = <<>> /\ end = ""
Stop(e) == at' = "end" /\ end' = e
Args == /\ at = "args"
        /\ IF rq.exe = "missing" THEN Stop("error") ELSE at' = "read" /\ UNCHANGED end
        /\ UNCHANGED <<rq, cell, json, calls>>
Read == /\ at = "read"
        /\ IF ~rq.input THEN Stop("error") ELSE at' = "choose" /\ UNCHANGED end
        /\ UNCHANGED <<rq, cell, json, calls>>
Choose == /\ at = "choose"
          /\ LET cand == {i \in DOMAIN rq.circs : IF rq.want = "" THEN rq.circs[i].top ELSE rq.circs[i].name = rq.want}
             IN IF Cardinality(cand) # 1 THEN Stop("error") /\ UNCHANGED cell
                ELSE at' = "write" /\ cell' = rq.circs[CHOOSE i \in cand : TRUE].name /\ UNCHANGED end
          /\ UNCHANGED <<rq, json, calls>>
Write == at = "write" /\ json' = cell /\ at' = "call" /\ UNCHANGED <<rq, cell, calls, end>>
Call == /\ at = "call" /\ calls' = Append(calls, json)
        /\ Stop(IF rq.exe = "ok" THEN "ok" ELSE "error")
        /\ UNCHANGED <<rq, cell, json>>
Next == Args \/ Read \/ Choose \/ Write \/ Call
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
DrawnIfAsked == at = "end" => /\ (calls # <<>>) = Drawable(rq)
                              /\ (end = "ok") = (Drawable(rq) /\ rq.exe = "ok")
                              /\ calls # <<>> => calls = <<CellOf(rq)>>
Ends == <>(at = "end")
=============================================================================
