------------------------------ MODULE Engines ------------------------------
(* One run directory and a history of kpex runs in it, with the external tools behaving well or badly.               *)
(* A run is [magic, fc, fcap, k25 : BOOLEAN, lvsT, magicT, fcT, fcapT : what the tools do]:                          *)
(*   ok: result and exit status 0;  again: the same, with an earlier attempt in the output before the result;         *)
(*   exit: a result but exit status 1;  kill: a result, then killed by a signal;  missing: no such executable;        *)
(*   none: exit status 0 and no result;  half: exit status 0 and an incomplete result (FasterCap, FastCap2)           *)
(* Everything the tools write in run number k carries the tag k.                                                     *)
(* The result files of the engines: dir[f] = tag of the run whose tool results they hold, 0 if absent.               *)
EXTENDS Integers, Sequences, FiniteSets
MagicFiles == {"spice", "report"}
FcFiles == {"raw", "avg", "expanded", "csv", "reduced"}
FcapFiles == {"fraw", "favg", "fexpanded", "freduced"}
K25Files == {"k25csv", "k25spice"}
Files == MagicFiles \cup FcFiles \cup FcapFiles \cup K25Files
Good == {"ok", "again"}
Tools(r) == (IF r.magic THEN <<"magic">> ELSE <<>>) \o (IF r.fc \/ r.fcap \/ r.k25 THEN <<"lvs">> ELSE <<>>)
            \o (IF r.fc THEN <<"fc">> ELSE <<>>) \o (IF r.fcap THEN <<"fcap">> ELSE <<>>)
Beh(r, t) == CASE t = "magic" -> r.magicT [] t = "lvs" -> r.lvsT [] t = "fc" -> r.fcT [] t = "fcap" -> r.fcapT
\* the exit status of LVS tells whether layout and schematic match, not whether there is a result
Delivers(r, t) == IF t = "lvs" THEN Beh(r, t) \in Good \cup {"exit", "kill"} ELSE Beh(r, t) \in Good
RECURSIVE Reached(_, _)
Reached(r, i) == \A j \in 1..(i - 1) : Delivers(r, Tools(r)[j])
\* tools called in this order
Called(r) == SelectSeq([i \in DOMAIN Tools(r) |-> IF Reached(r, i) THEN Tools(r)[i] ELSE "-"], LAMBDA x : x # "-")
Success(r) == \A i \in DOMAIN Tools(r) : Delivers(r, Tools(r)[i])
ToolDone(r, t) == \E i \in DOMAIN Tools(r) : Tools(r)[i] = t /\ Reached(r, i) /\ Delivers(r, t)
\* may file f hold tag a after run number k, if it held tag b before?
Requested(r, f) == CASE f \in MagicFiles -> r.magic [] f \in FcFiles -> r.fc [] f \in FcapFiles -> r.fcap [] OTHER -> r.k25
Delivered(r, f) == CASE f \in MagicFiles -> ToolDone(r, "magic")
                     [] f \in FcFiles -> ToolDone(r, "fc")
                     [] f \in FcapFiles -> ToolDone(r, "fcap")
                     [] OTHER -> r.k25 /\ Success(r)
\* the netlist that MAGIC writes is MAGIC's own; if MAGIC failed, whatever it has left may be there
Own(f) == f = "spice"
After(r, f, b, k) == IF ~Requested(r, f) THEN {b}
                     ELSE IF Delivered(r, f) THEN {k}
                     ELSE {b, 0} \cup (IF Own(f) THEN {k} ELSE {})
=============================================================================
