------------------------------ MODULE CliModel ------------------------------
(* A command line is examined step by step, in any order, errors are collected, and only then tools are called.      *)
(* All invocations over small layouts: the procedure agrees with the declarative meaning of Cli.                      *)
EXTENDS Cli, TLC
Layouts == {<<[name |-> "A", mark |-> 1, kids |-> <<>>]>>,
            <<[name |-> "A", mark |-> 1, kids |-> <<"B">>], [name |-> "B", mark |-> 2, kids |-> <<>>]>>,
            <<[name |-> "A", mark |-> 1, kids |-> <<>>], [name |-> "B", mark |-> 2, kids |-> <<>>]>>,
            <<[name |-> "A", mark |-> 1, kids |-> <<"C">>], [name |-> "B", mark |-> 2, kids |-> <<"C">>], [name |-> "C", mark |-> 3, kids |-> <<>>]>>, <<>>}
Invocations == [engines : SUBSET {"magic", "fc", "k25"}, gds : {"none", "empty", "missing", "corrupt", "ok"}, lvsdb : {"none", "missing", "ok"},
                cells : Layouts, dcell : {"D"}, cell : {"", "A", "B", "X"}, schem : {"none", "missing", "ok"}, pdk : {"ok"}, word : {"ok"},
                level : {"ok", "bad"}, diel : {"ok"}, klayout : {"file", "missing"}, rc : BOOLEAN]
VARIABLES r, pc, todo, found, called, cell
vars == <<r, pc, todo, found, called, cell>>
Steps == {"exe", "rc", "engines", "gds", "cell", "schem", "level"}
Init == /\ r \in Invocations /\ pc = "validate" /\ todo = Steps /\ found = FALSE /\ called = <<>> /\ cell = "?"
Step(s) == /\ pc = "validate" /\ s \in todo /\ (s = "cell" => "gds" \notin todo) /\ (s = "schem" => "cell" \notin todo)
           /\ todo' = todo \ {s}
           /\ LET e == CASE s = "exe" -> r.klayout = "missing"
                         [] s = "rc" -> "magic" \in r.engines /\ ~r.rc
                         [] s = "engines" -> r.engines = {} \/ (~GdsGiven(r) /\ ("magic" \in r.engines \/ r.lvsdb = "none"))
                         [] s = "gds" -> r.gds = "missing" \/ (~GdsGiven(r) /\ r.lvsdb = "missing")
                         [] s = "cell" -> r.gds = "ok" /\ (IF r.cell = "" THEN Cardinality(Tops(r)) # 1 ELSE r.cell \notin Names(r))
                         [] s = "schem" -> r.gds = "ok" /\ r.schem = "missing"
                         [] s = "level" -> r.level = "bad" IN
              /\ found' = (found \/ e)
              /\ cell' = IF s # "cell" \/ e \/ (GdsGiven(r) /\ r.gds # "ok") THEN cell
                         ELSE IF GdsGiven(r) THEN (IF r.cell # "" THEN r.cell ELSE CHOOSE n \in Tops(r) : TRUE) ELSE r.dcell
           /\ pc' = IF s = "gds" /\ r.gds = "corrupt" THEN "crashed" ELSE IF todo' = {} THEN (IF found' THEN "rejected" ELSE "run") ELSE pc
           /\ UNCHANGED <<r, called>>
Call == /\ pc = "run" /\ called # Tools(r) /\ called' = SubSeq(Tools(r), 1, Len(called) + 1) /\ UNCHANGED <<r, pc, todo, found, cell>>
Next == Call \/ \E s \in Steps : Step(s)
\* (one order of the steps that do not depend on each other is enough to reach every end; the model explores all)
Spec == Init /\ [][Next]_vars
Agrees == /\ (pc = "rejected" => Outcome(r) = "reject") /\ (pc = "run" => Outcome(r) = "run" /\ cell = Chosen(r))
          /\ (pc = "crashed" => Outcome(r) = "broken") /\ (called # <<>> => pc = "run")
\* in a run the chosen cell is the only top cell of what LVS and MAGIC get, and it is closed under instances
Closed == pc = "run" /\ Mode(r) = "gds" =>
            LET C == InputCells(r) N == {c[1] : c \in C} IN
            /\ Chosen(r) \in N /\ (\A c \in C : c[3] \subseteq N)
            /\ {n \in N : \A c \in C : n \notin c[3]} = {Chosen(r)}
            /\ (Tops(r) = {Chosen(r)} => N = Names(r))
MagicNeedsGds == "magic" \in Range(called) => GdsGiven(r)
=============================================================================
