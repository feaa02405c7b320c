----------------------------- MODULE Pex25Model -----------------------------
(* A session of runs on one layout with any options: the results are a function of what the engine was asked.     *)
(* The engine is the pair of unknown functions cap(CKey), res(RKey), fixed in the first state.                    *)
EXTENDS Pex25, TLC
CONSTANTS Values, MaxRuns
TechHalo == 8
Opts == [mode : {"", "CC", "R", "RC"}, halo : {-1, 0, 8}, scale : {"", "true", "false"}, blackbox : {""}]
CKeys == {CKey(o, TechHalo) : o \in Opts}
RKeys == {RKey(o) : o \in Opts}
VARIABLES cap, res, runs
vars == <<cap, res, runs>>
Nothing == 0
Init == cap \in [CKeys -> Values] /\ res \in [RKeys -> Values] /\ runs = {}
Run(o) == /\ Cardinality(runs) < MaxRuns
          /\ runs' = runs \cup {[o |-> o, c |-> IF NeedC(EffMode(o)) THEN cap[CKey(o, TechHalo)] ELSE Nothing,
                                 r |-> IF NeedR(EffMode(o)) THEN res[RKey(o)] ELSE Nothing]}
          /\ UNCHANGED <<cap, res>>
Next == \E o \in Opts : Run(o)
Spec == Init /\ [][Next]_vars
\* the combined mode delivers what the single modes deliver
Combined == \A x, y \in runs : EffMode(x.o) = "RC" /\ x.o.halo = y.o.halo /\ x.o.scale = y.o.scale =>
                /\ EffMode(y.o) = "CC" => x.c = y.c
                /\ EffMode(y.o) = "R" => x.r = y.r
DefaultsAreNeutral == \A x, y \in runs : x.o.mode = "" /\ y.o.mode = "CC" /\ x.o.halo = -1 /\ y.o.halo = TechHalo
                          /\ x.o.scale = "" /\ y.o.scale = "true" => x.c = y.c /\ x.r = y.r
Gated == \A x \in runs : (EffMode(x.o) = "CC" => x.r = Nothing) /\ (EffMode(x.o) = "R" => x.c = Nothing)
=============================================================================
