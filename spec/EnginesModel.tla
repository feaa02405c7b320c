---------------------------- MODULE EnginesModel ----------------------------
(* The step by step execution of one run after another, with tools failing at will, keeps the contract of Engines.   *)
EXTENDS Engines, TLC
CONSTANTS MaxRuns
Beh0 == {"ok", "again", "exit", "kill", "missing", "none"}
Runs == {r \in [magic : BOOLEAN, fc : BOOLEAN, fcap : BOOLEAN, k25 : BOOLEAN, lvsT : {"ok", "exit", "none"}, magicT : {"ok", "exit", "none"},
                fcT : {"ok", "exit", "half"}, fcapT : {"ok", "exit", "half"}] :
          /\ (r.magic \/ r.fc \/ r.fcap \/ r.k25) /\ (r.magic \/ r.magicT = "ok") /\ (r.fc \/ r.fcT = "ok") /\ (r.fcap \/ r.fcapT = "ok")}
VARIABLES k, r, pc, dir, before, todo, called, mtmp
vars == <<k, r, pc, dir, before, todo, called, mtmp>>
Init == k = 0 /\ pc = "idle" /\ dir = [f \in Files |-> 0] /\ before = dir /\ todo = <<>> /\ called = <<>> /\ mtmp = 0
        /\ r = CHOOSE x \in Runs : TRUE
Start == /\ pc \in {"idle", "done", "failed"} /\ k < MaxRuns /\ k' = k + 1
         /\ r' \in Runs /\ before' = dir /\ todo' = Tools(r') /\ called' = <<>> /\ pc' = "run" /\ mtmp' = 0
         /\ dir' = IF r'.magic THEN [dir EXCEPT !["spice"] = 0] ELSE dir      \* what an earlier MAGIC run left is removed
Call == /\ pc = "run" /\ todo # <<>>
        /\ LET t == Head(todo) b == Beh(r, t) IN
           /\ called' = Append(called, t) /\ todo' = Tail(todo)
           /\ CASE t = "magic" -> /\ dir' = IF b = "none" THEN dir
                                            ELSE IF b \in Good THEN [f \in Files |-> IF f \in MagicFiles THEN k ELSE dir[f]]
                                            ELSE [dir EXCEPT !["spice"] = k]
                                  /\ pc' = IF b \in Good THEN pc ELSE "failed"
                [] t = "lvs" -> dir' = dir /\ pc' = IF b = "none" THEN "failed" ELSE pc
                [] t = "fc" -> /\ dir' = IF b \in Good THEN [f \in Files |-> IF f \in FcFiles THEN k ELSE dir[f]] ELSE dir
                               /\ pc' = IF b \in Good THEN pc ELSE "failed"
                [] t = "fcap" -> /\ dir' = IF b \in Good THEN [f \in Files |-> IF f \in FcapFiles THEN k ELSE dir[f]] ELSE dir
                                 /\ pc' = IF b \in Good THEN pc ELSE "failed"
        /\ UNCHANGED <<k, r, before, mtmp>>
Finish == /\ pc = "run" /\ todo = <<>> /\ pc' = "done"
          /\ dir' = IF r.k25 THEN [f \in Files |-> IF f \in K25Files THEN k ELSE dir[f]] ELSE dir
          /\ UNCHANGED <<k, r, before, todo, called, mtmp>>
Next == Start \/ Call \/ Finish
Spec == Init /\ [][Next]_vars
Ended == pc \in {"done", "failed"}
Contract == Ended => /\ (pc = "done") = Success(r)
                     /\ called = Called(r)
                     /\ \A f \in Files : dir[f] \in After(r, f, before[f], k)
=============================================================================
