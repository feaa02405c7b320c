----------------------------- MODULE ToolsModel -----------------------------
(* The script that kpex writes for each choice of options is executed command by command by the session of module Tools,  *)
(* possibly with one command left out: the whole script does what the options ask for, for these options only, and none   *)
(* of its commands can be left out but those without an effect of their own.                                              *)
EXTENDS Tools, TLC
CONSTANT Wide
Cmd(ws) == [w |-> ws, n |-> [i \in DOMAIN ws |-> <<>>]]
Num(ws, x) == [w |-> Append(ws, "#"), n |-> [i \in 1..(Len(ws) + 1) |-> IF i <= Len(ws) THEN <<>> ELSE x]]
Opts == [mode : {"CC", "RC", "R"}, cell : {"TOP"}, halo : {<<>>, <<5, 0>>, <<125, -2>>}, mtol : {<<>>, <<2, 0>>}, short : {"", "none", "voltage"},
         merge : IF Wide THEN {"", "conservative", "aggressive"} ELSE {"", "aggressive"}, cthresh : {<<>>, <<1, -1>>}, rthresh : {<<>>, <<5, 1>>}]
Halo(o) == IF o.halo = <<>> THEN <<>> ELSE <<Num(<<"extract", "halo">>, Norm(Shift(<<2 * o.halo[1], o.halo[2]>>, 2)))>>
Script(o) ==
  <<Cmd(<<"crashbackups", "stop">>), Cmd(<<"drc", "off">>), Cmd(<<"gds", "read", "@layout">>), Cmd(<<"load", o.cell>>), Cmd(<<"select", "top", "cell">>),
    Cmd(<<"flatten", o.cell \o "_flat">>), Cmd(<<"load", o.cell \o "_flat">>), Cmd(<<"cellname", "delete", o.cell, "-noprompt">>),
    Cmd(<<"cellname", "rename", o.cell \o "_flat", o.cell>>), Cmd(<<"select", "top", "cell">>), Cmd(<<"extract", "path", "@rundir">>)>>
  \o Halo(o)
  \o (IF Resistive(o) THEN <<Cmd(<<"extract", "do", "resistance">>)>> ELSE <<>>)
  \o (IF ~Capacitive(o) THEN <<Cmd(<<"extract", "no", "capacitance">>), Cmd(<<"extract", "no", "coupling">>)>> ELSE <<>>)
  \o <<Cmd(<<"extract", "all">>)>>
  \o (IF Resistive(o) THEN <<Cmd(<<"ext2sim", "labels", "on">>), Cmd(<<"ext2sim">>), Num(<<"extresist", "tolerance">>, Given(o.mtol, <<1, 0>>)),
                            Cmd(<<"extresist", "all">>)>> ELSE <<>>)
  \o <<Cmd(<<"ext2spice", "short", IF o.short = "" THEN "none" ELSE o.short>>), Cmd(<<"ext2spice", "merge", IF o.merge = "" THEN "none" ELSE o.merge>>)>>
  \o (IF Capacitive(o) THEN <<Num(<<"ext2spice", "cthresh">>, Given(o.cthresh, <<1, -2>>))>> ELSE <<>>)
  \o (IF Resistive(o) THEN <<Num(<<"ext2spice", "rthresh">>, Given(o.rthresh, <<1, 2>>)), Cmd(<<"ext2spice", "extresist", "on">>)>> ELSE <<>>)
  \o <<Cmd(<<"ext2spice", "subcircuits", "top", "on">>), Cmd(<<"ext2spice", "format", "ngspice">>),
       Cmd(<<"ext2spice", "-p", "@rundir", "-o", "@netlist">>), Cmd(<<"quit", "-noprompt">>)>>
VARIABLES o, s, pos, dropped
vars == <<o, s, pos, dropped>>
Init == o \in Opts /\ s = Session0 /\ pos = 1 /\ dropped = <<>>
Next == /\ pos <= Len(Script(o))
        /\ \/ s' = Step(s, Script(o)[pos]) /\ UNCHANGED dropped
           \/ dropped = <<>> /\ dropped' = <<Script(o)[pos]>> /\ UNCHANGED s
        /\ pos' = pos + 1 /\ UNCHANGED o
Spec == Init /\ [][Next]_vars
Finished == pos > Len(Script(o))
Harmless(c) == W(c, 1) \in {"crashbackups", "drc", "select", "quit"} \/ (W(c, 1) = "ext2spice" /\ W(c, 2) \in {"short", "merge"} /\ W(c, 3) = "none")
Whole == Finished /\ dropped = <<>> => MagicFaults(s, o) = {}
Necessary == Finished /\ dropped # <<>> => (MagicFaults(s, o) = {}) = Harmless(dropped[1])
Same(p, q) == /\ p.mode = q.mode /\ p.halo = q.halo /\ ((p.short \in {"", "none"} /\ q.short \in {"", "none"}) \/ p.short = q.short) /\ p.merge = q.merge
              /\ (Capacitive(p) => p.cthresh = q.cthresh) /\ (Resistive(p) => p.rthresh = q.rthresh /\ p.mtol = q.mtol)
Distinct == Finished /\ dropped = <<>> => \A q \in Opts : (MagicFaults(s, q) = {}) = Same(o, q)
\* nothing is written before there is an extraction, and a session that ended changes nothing
Ordered == s.out # <<>> /\ dropped = <<>> => s.out[1].ex # <<>>
=============================================================================
