------------------------------- MODULE Tools -------------------------------
(* What the external tools are asked to do by their command lines, and which command lines the options of kpex ask for. *)
(* Numbers are exact decimals <<m, e>> (module Decimal), <<>>: none. "@..." are the files and directories of the run.   *)
(* Commands of the MAGIC script: [w: words, n: for each word the number it is, or <<>>].                                *)
EXTENDS Decimal, FiniteSets, SequencesExt
Given(x, default) == IF x = <<>> THEN default ELSE x
------------------------------------------------------------------------------
(* MAGIC: a session reads layouts, edits cells, extracts and writes netlists. What counts is the state when a command    *)
(* that produces something is given, not where in the script the settings are made.                                     *)
None == "none"
NoCell == [src |-> None, of |-> None, flat |-> FALSE]
Session0 == [src |-> None, cells |-> {}, edit |-> None, sel |-> None, do |-> {"capacitance", "coupling"}, path |-> None, halo |-> <<>>,
             ex |-> <<>>, labels |-> FALSE, sim |-> <<>>, tol |-> <<>>, res |-> <<>>, spice |-> {}, out |-> <<>>, failed |-> FALSE, done |-> FALSE]
\* cells: <<name, content>> of the cells changed since the layout was read
Content(s, c) == IF \E p \in s.cells : p[1] = c THEN (CHOOSE p \in s.cells : p[1] = c)[2]
                 ELSE IF s.src = None THEN NoCell ELSE [src |-> s.src, of |-> c, flat |-> FALSE]
Put(s, c, v) == {p \in s.cells : p[1] # c} \cup {<<c, v>>}
\* short, merge, cthresh, rthresh, extresist, subcircuits, format: the last one holds
Set(S, k, v) == {p \in S : p[1] # k} \cup {<<k, v>>}
W(c, i) == IF i <= Len(c.w) THEN c.w[i] ELSE ""
After_(c, opt) == LET I == {i \in 2..(Len(c.w) - 1) : c.w[i] = opt} IN IF I = {} THEN None ELSE c.w[(CHOOSE i \in I : TRUE) + 1]
Step(s, c) ==
  IF s.failed \/ s.done THEN s ELSE
  CASE W(c, 1) = "gds" /\ W(c, 2) = "read" -> [s EXCEPT !.src = W(c, 3), !.cells = {}]
    [] W(c, 1) = "load" -> IF Content(s, W(c, 2)) = NoCell THEN [s EXCEPT !.failed = TRUE] ELSE [s EXCEPT !.edit = W(c, 2), !.sel = None]
    [] W(c, 1) = "select" -> [s EXCEPT !.sel = IF W(c, 2) = "top" THEN s.edit ELSE None]
    [] W(c, 1) = "flatten" -> IF s.edit = None THEN [s EXCEPT !.failed = TRUE]
                              ELSE [s EXCEPT !.cells = Put(s, W(c, 2), [Content(s, s.edit) EXCEPT !.flat = TRUE])]
    [] W(c, 1) = "cellname" /\ W(c, 2) = "delete" -> [s EXCEPT !.cells = Put(s, W(c, 3), NoCell), !.edit = IF s.edit = W(c, 3) THEN None ELSE s.edit]
    [] W(c, 1) = "cellname" /\ W(c, 2) = "rename" ->
         \* (there is no renaming to a cell that exists)
         IF Content(s, W(c, 3)) = NoCell \/ (Content(s, W(c, 4)) # NoCell) THEN [s EXCEPT !.failed = TRUE]
         ELSE [s EXCEPT !.cells = Put([s EXCEPT !.cells = Put(s, W(c, 4), Content(s, W(c, 3)))], W(c, 3), NoCell),
                        !.edit = IF s.edit = W(c, 3) THEN W(c, 4) ELSE s.edit, !.sel = IF s.sel = W(c, 3) THEN W(c, 4) ELSE s.sel]
    [] W(c, 1) = "extract" /\ W(c, 2) = "path" -> [s EXCEPT !.path = W(c, 3)]
    [] W(c, 1) = "extract" /\ W(c, 2) = "halo" -> [s EXCEPT !.halo = c.n[3]]
    [] W(c, 1) = "extract" /\ W(c, 2) = "do" -> [s EXCEPT !.do = s.do \cup {W(c, 3)}]
    [] W(c, 1) = "extract" /\ W(c, 2) = "no" -> [s EXCEPT !.do = s.do \ {W(c, 3)}]
    [] W(c, 1) = "extract" /\ W(c, 2) \in {"all", ""} ->
         IF s.edit = None THEN [s EXCEPT !.failed = TRUE]
         ELSE [s EXCEPT !.ex = <<[cell |-> s.edit, content |-> Content(s, s.edit), do |-> s.do, path |-> s.path, halo |-> s.halo]>>, !.sim = <<>>, !.res = <<>>]
    [] W(c, 1) = "ext2sim" /\ W(c, 2) = "labels" -> [s EXCEPT !.labels = W(c, 3) = "on"]
    [] W(c, 1) = "ext2sim" /\ W(c, 2) = "" -> [s EXCEPT !.sim = IF s.ex = <<>> THEN <<>> ELSE <<[labels |-> s.labels]>>]
    [] W(c, 1) = "extresist" /\ W(c, 2) = "tolerance" -> [s EXCEPT !.tol = c.n[3]]
    [] W(c, 1) = "extresist" /\ W(c, 2) \in {"all", ""} -> [s EXCEPT !.res = IF s.sim = <<>> THEN <<>> ELSE <<[tol |-> s.tol, labels |-> s.sim[1].labels]>>]
    [] W(c, 1) = "ext2spice" /\ W(c, 2) \in {"short", "merge", "extresist", "format"} -> [s EXCEPT !.spice = Set(s.spice, W(c, 2), W(c, 3))]
    [] W(c, 1) = "ext2spice" /\ W(c, 2) \in {"cthresh", "rthresh"} -> [s EXCEPT !.spice = Set(s.spice, W(c, 2), c.n[3])]
    [] W(c, 1) = "ext2spice" /\ W(c, 2) = "subcircuits" -> [s EXCEPT !.spice = Set(s.spice, "subcircuits " \o W(c, 3), W(c, 4))]
    [] W(c, 1) = "ext2spice" /\ After_(c, "-o") # None ->
         [s EXCEPT !.out = <<[file |-> After_(c, "-o"), path |-> After_(c, "-p"), spice |-> s.spice, ex |-> s.ex, res |-> s.res]>>]
    [] W(c, 1) = "quit" -> [s EXCEPT !.done = TRUE]
    [] OTHER -> s
Run(cmds) == FoldLeft(Step, Session0, cmds)
Val(S, k, default) == IF \E p \in S : p[1] = k THEN (CHOOSE p \in S : p[1] = k)[2] ELSE default
\* 200 units of MAGIC are a micrometre; halves may go either way
HaloOk(h, um) == LET d == Add(Shift(<<2 * um[1], um[2]>>, 2), Neg(h)) IN
                 h # <<>> /\ h[2] >= 0 /\ ~Less(<<5, -1>>, d) /\ ~Less(d, <<-5, -1>>)
Resistive(o) == o.mode \in {"R", "RC"}
Capacitive(o) == o.mode \in {"C", "CC", "RC"}
MagicFaults(s, o) ==
  IF s.failed \/ s.out = <<>> THEN {"magic-no-netlist"} ELSE
  LET t == s.out[1] IN
  IF t.ex = <<>> THEN {"magic-no-extraction"} ELSE
  LET x == t.ex[1] IN UNION {
    IF t.file # "@netlist" THEN {"magic-output-file"} ELSE {},
    IF t.path # "@rundir" \/ x.path # "@rundir" THEN {"magic-run-directory"} ELSE {},
    IF x.content.src # "@layout" \/ x.content.of # o.cell \/ x.cell # o.cell THEN {"magic-cell"} ELSE {},
    IF ~x.content.flat THEN {"magic-not-flat"} ELSE {},
    IF (o.halo = <<>>) # (x.halo = <<>>) THEN {"magic-halo"} ELSE IF o.halo # <<>> /\ ~HaloOk(x.halo, o.halo) THEN {"magic-halo"} ELSE {},
    IF Capacitive(o) # ({"capacitance", "coupling"} \subseteq x.do) \/ (~Capacitive(o) /\ {"capacitance", "coupling"} \cap x.do # {}) THEN {"magic-mode-c"} ELSE {},
    IF Resistive(o) # ("resistance" \in x.do) THEN {"magic-mode-r"} ELSE {},
    IF Resistive(o) # (t.res # <<>>) \/ Resistive(o) # (Val(t.spice, "extresist", "off") = "on") THEN {"magic-mode-r"}
    ELSE IF Resistive(o) /\ (t.res[1].tol # Given(o.mtol, <<1, 0>>) \/ ~t.res[1].labels) THEN {"magic-tolerance"} ELSE {},
    IF Val(t.spice, "short", "none") # (IF o.short = "" THEN "none" ELSE o.short) THEN {"magic-short"} ELSE {},
    IF Val(t.spice, "merge", "none") # (IF o.merge = "" THEN "none" ELSE o.merge) THEN {"magic-merge"} ELSE {},
    IF Capacitive(o) /\ Val(t.spice, "cthresh", <<>>) # Given(o.cthresh, <<1, -2>>) THEN {"magic-cthresh"} ELSE {},
    IF Resistive(o) /\ Val(t.spice, "rthresh", <<>>) # Given(o.rthresh, <<1, 2>>) THEN {"magic-rthresh"} ELSE {},
    IF Val(t.spice, "subcircuits top", "off") # "on" \/ Val(t.spice, "format", "") # "ngspice" THEN {"magic-format"} ELSE {} }
\* arguments of the executable
MagicArgs(a) == UNION {
    IF ~({"-dnull", "-noconsole"} \subseteq Range(a)) THEN {"magic-interactive"} ELSE {},
    IF ~\E i \in 1..(Len(a) - 1) : a[i] = "-rcfile" /\ a[i + 1] = "@magicrc" THEN {"magic-rcfile"} ELSE {},
    IF a = <<>> \/ Last(a) # "@script" THEN {"magic-script"} ELSE {} }
------------------------------------------------------------------------------
(* FasterCap: arguments are [f: letters, n: number or <<>>] or [w: word]; -b, -i, -v do not change results              *)
FasterCapFlags(o) == {<<"a", Given(o.tolerance, <<5, -2>>)>>, <<"d", Given(o.dcoeff, <<5, -1>>)>>, <<"m", Given(o.mesh, <<5, -1>>)>>,
                      <<"f", Given(o.ooc, <<2, 0>>)>>} \cup (IF o.precond THEN {<<"ap", <<>>>>} ELSE {})
                     \cup (IF o.galerkin THEN {<<"g", <<>>>>} ELSE {}) \cup (IF o.jacobi THEN {<<"pj", <<>>>>} ELSE {})
FasterCapFaults(a, threads, o) ==
  LET flags == SelectSeq(a, LAMBDA x : x.f # "") IN UNION {
    IF ~\E x \in Range(a) : x.f = "b" THEN {"fastercap-window"} ELSE {},
    IF {<<x.f, x.n>> : x \in {x \in Range(flags) : x.f \notin {"b", "i", "v"}}} # FasterCapFlags(o) \/ Len(flags) # Cardinality(Range(flags)) THEN {"fastercap-options"} ELSE {},
    IF [i \in DOMAIN SelectSeq(a, LAMBDA x : x.f = "") |-> SelectSeq(a, LAMBDA x : x.f = "")[i].w] # <<"@lst">> THEN {"fastercap-input"} ELSE {},
    IF o.threads # "" /\ threads # o.threads THEN {"fastercap-threads"} ELSE {} }
(* FastCap2: the list file is found in the working directory *)
FastCapFaults(a, o) == UNION {
    IF {x.w : x \in {x \in Range(a) : x.f = "l"}} # {"@lst"} THEN {"fastcap-input"} ELSE {},
    IF \E x \in Range(a) : x.f = "p" /\ x.n # <<1, 0>> THEN {"fastcap-permittivity"} ELSE {},
    \* expansion order and tolerance are FastCap2's own; the depth of the partitioning is left to it
    IF \E x \in Range(a) : x.f \notin {"", "l", "p"} /\ <<x.f, x.n>> \notin {<<"o", <<2, 0>>>>, <<"t", <<1, -2>>>>} THEN {"fastcap-options"} ELSE {},
    IF \E x \in Range(a) : x.f = "" THEN {"fastcap-arguments"} ELSE {} }
------------------------------------------------------------------------------
(* LVS: -r <script>, -rd <name>=<value>; nothing of the netlist may be combined, purged or simplified away                *)
LvsFixed == {<<"run_mode", "deep">>, <<"spice_net_names", "true">>, <<"scale", "false">>, <<"schematic_simplify", "false">>, <<"net_only", "false">>,
             <<"top_lvl_pins", "true">>, <<"combine", "false">>, <<"combine_devices", "false">>, <<"purge", "false">>, <<"purge_nets", "false">>,
             <<"no_simplify", "true">>}
LvsWanted(o) == LvsFixed \cup {<<"input", "@layout">>, <<"report", "@lvsdb">>, <<"schematic", "@schematic">>, <<"verbose", IF o.verbose THEN "true" ELSE "false">>}
\* a: [batch, script, vars: sequence of <<name, value>>]
LvsFaults(a, o) == UNION {
    IF ~a.batch THEN {"lvs-window"} ELSE {},
    IF a.script # "@script" THEN {"lvs-script"} ELSE {},
    IF ~(LvsWanted(o) \subseteq Range(a.vars)) \/ \E i, j \in DOMAIN a.vars : i # j /\ a.vars[i][1] = a.vars[j][1] THEN {"lvs-parameters"} ELSE {} }
=============================================================================
