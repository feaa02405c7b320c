-------------------------------- MODULE Pex25 --------------------------------
(* What a run of the 2.5D engine delivers, as a function of the command line.                                     *)
EXTENDS Integers, Sequences, FiniteSets
Modes == {"CC", "R", "RC"}
NeedC(m) == m \in {"CC", "RC"}
NeedR(m) == m \in {"R", "RC"}
\* options as given; "" / 0 = not given
EffMode(o) == IF o.mode = "" THEN "CC" ELSE o.mode
EffHalo(o, techHalo) == IF o.halo < 0 THEN techHalo ELSE o.halo
EffScale(o) == IF o.scale = "" THEN TRUE ELSE o.scale = "true"
EffBlackbox(o) == IF o.blackbox = "" THEN FALSE ELSE o.blackbox = "true"
\* what the capacitances, and the resistances, may depend on
CKey(o, techHalo) == <<EffHalo(o, techHalo), EffScale(o), EffBlackbox(o)>>
RKey(o) == <<EffBlackbox(o)>>
=============================================================================
