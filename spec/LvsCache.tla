------------------------------ MODULE LvsCache ------------------------------
(* The LVSDB cache of kpex, step by step: runs read the clock and the layout, look into the cache, call LVS if      *)
(* need be, copy the LVSDB into the cache under a temporary name, and rename it. The layout may be edited and a run  *)
(* may die at any moment; two runs may share the cache. Time stamps have a finite resolution: the clock need not     *)
(* advance between two steps.                                                                                        *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Procs,      \* processes, each with an output directory of its own
          MaxVer, MaxTime, MaxRuns
None == [ver |-> 0, time |-> 0, complete |-> FALSE]
VARIABLES clock, ver, mtime,      \* the layout file: its content and modification time
          cache,                  \* the cached LVSDB: version it was made from, time stamp, complete
          out,                    \* out[p]: LVSDB in the output directory: 0 none, -1 incomplete, else version
          run,                    \* run[p]: [pc, t0, ver0, seen, got, cacheOn]
          runs
vars == <<clock, ver, mtime, cache, out, run, runs>>
Idle == [pc |-> "idle", t0 |-> 0, seen |-> {}, got |-> 0, on |-> FALSE, lvs |-> FALSE, valid |-> FALSE, n |-> 0]
Init == /\ clock = 1 /\ ver = 1 /\ mtime = 1 /\ cache = None /\ runs = 0
        /\ out = [p \in Procs |-> 0] /\ run = [p \in Procs |-> Idle]
Tick == clock < MaxTime /\ clock' = clock + 1 /\ UNCHANGED <<ver, mtime, cache, out, run, runs>>
Edit == /\ ver < MaxVer /\ ver' = ver + 1 /\ mtime' = clock
        /\ run' = [p \in Procs |-> IF run[p].pc = "idle" THEN run[p] ELSE [run[p] EXCEPT !.seen = @ \cup {ver + 1}]]
        /\ UNCHANGED <<clock, cache, out, runs>>
\* the time is read before the layout
Start(p, on) == /\ run[p].pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
                /\ run' = [run EXCEPT ![p] = [Idle EXCEPT !.pc = "check", !.t0 = clock, !.seen = {ver}, !.on = on, !.n = runs + 1]]
                /\ UNCHANGED <<clock, ver, mtime, cache, out>>
Hit == cache.ver # 0 /\ cache.time > mtime
Check(p) == /\ run[p].pc = "check"
            /\ IF run[p].on /\ Hit
               THEN /\ run' = [run EXCEPT ![p].pc = "done", ![p].got = IF cache.complete THEN cache.ver ELSE -1]
                    /\ UNCHANGED out
               ELSE /\ run' = [run EXCEPT ![p].pc = "lvs", ![p].lvs = TRUE]
                    /\ out' = [out EXCEPT ![p] = 0]            \* what an earlier run left is removed
            /\ UNCHANGED <<clock, ver, mtime, cache, runs>>
\* LVS reads the layout as it is now; it may fail, leaving nothing or half a file
Lvs(p) == /\ run[p].pc = "lvs"
          /\ \E r \in {ver, 0, -1} : /\ out' = [out EXCEPT ![p] = r]
                                     /\ run' = [run EXCEPT ![p].pc = "read"]
          /\ UNCHANGED <<clock, ver, mtime, cache, runs>>
Read(p) == /\ run[p].pc = "read"
           /\ run' = [run EXCEPT ![p] = IF out[p] <= 0 THEN [run[p] EXCEPT !.pc = "failed"]
                                        ELSE [run[p] EXCEPT !.got = out[p], !.pc = IF run[p].on THEN "store" ELSE "done"]]
           /\ UNCHANGED <<clock, ver, mtime, cache, out, runs>>
\* the copy is made elsewhere; it gets the time stamp of the begin of the run and appears as a whole
Store(p) == /\ run[p].pc = "store"
            /\ cache' = [ver |-> run[p].got, time |-> run[p].t0, complete |-> TRUE]
            /\ run' = [run EXCEPT ![p].pc = "done"]
            /\ UNCHANGED <<clock, ver, mtime, out, runs>>
Die(p) == /\ run[p].pc \in {"check", "lvs", "read", "store"}
          /\ run' = [run EXCEPT ![p].pc = "failed"]
          /\ UNCHANGED <<clock, ver, mtime, cache, out, runs>>
End(p) == /\ run[p].pc \in {"done", "failed"} /\ run' = [run EXCEPT ![p] = Idle]
          /\ UNCHANGED <<clock, ver, mtime, cache, out, runs>>
Next == Tick \/ Edit \/ \E p \in Procs : Start(p, TRUE) \/ Start(p, FALSE) \/ Check(p) \/ Lvs(p) \/ Read(p) \/ Store(p) \/ Die(p) \/ End(p)
Spec == Init /\ [][Next]_vars
\* a run that succeeds has worked on the layout as it was at some moment of the run
Fresh == \A p \in Procs : run[p].pc = "done" => run[p].got \in run[p].seen
CacheComplete == cache.ver # 0 => cache.complete
\* without caching, LVS is always called
LvsWhenOff == \A p \in Procs : run[p].pc = "done" /\ ~run[p].on => run[p].lvs
\* what is served from the cache is what LVS would give now
HitIsCurrent == Hit => cache.ver = ver
=============================================================================
