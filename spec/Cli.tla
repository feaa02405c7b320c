-------------------------------- MODULE Cli --------------------------------
(* What one kpex command line means. An invocation r:                                                                *)
(*  engines : set of "magic", "lvs-free" engines etc., a subset of {"magic", "fc", "fastcap", "k25"}                  *)
(*  gds     : "none" | "empty" (the empty string) | "missing" (no such file) | "corrupt" | "ok"                      *)
(*  lvsdb   : "none" | "missing" | "corrupt" | "ok"                                                                  *)
(*  cells   : the cells of the GDS file, <<[name, mark, kids : <<name>>]>>;  dcell : the top cell of the LVSDB        *)
(*  cell    : name given by --cell, "" if not given;   schem : "none" | "missing" | "ok"                             *)
(*  pdk, level, diel, word : "ok" | "bad": values of --pdk, --log_level, --diel, of a yes/no option                   *)
(*  klayout : "file" | "name" | "missing";   rc : is there a magicrc                                                  *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
GdsGiven(r) == r.gds \notin {"none", "empty"}
Mode(r) == IF GdsGiven(r) THEN "gds" ELSE IF r.lvsdb # "none" THEN "lvsdb" ELSE "none"
Names(r) == {x.name : x \in Range(r.cells)}
KidsOf(r, n) == UNION {Range(x.kids) : x \in {y \in Range(r.cells) : y.name = n}}
Tops(r) == {n \in Names(r) : \A m \in Names(r) : n \notin KidsOf(r, m)}
RECURSIVE Reach(_, _)
Reach(r, S) == LET T == S \cup UNION {KidsOf(r, n) : n \in S} IN IF T = S THEN S ELSE Reach(r, T)
Chosen(r) == IF Mode(r) = "lvsdb" THEN r.dcell
             ELSE IF r.cell # "" THEN r.cell ELSE CHOOSE n \in Tops(r) : TRUE
Usage(r) == r.pdk = "bad" \/ r.word = "bad"
Errors(r) == UNION {
   IF r.engines = {} THEN {"no-engine"} ELSE {},
   IF Mode(r) = "none" THEN {"no-input"} ELSE {},
   IF "magic" \in r.engines /\ ~GdsGiven(r) THEN {"magic-without-gds"} ELSE {},
   IF "magic" \in r.engines /\ ~r.rc THEN {"magic-without-rc"} ELSE {},
   IF r.klayout = "missing" THEN {"no-klayout"} ELSE {},
   IF r.gds = "missing" THEN {"no-gds"} ELSE {},
   IF Mode(r) = "lvsdb" /\ r.lvsdb = "missing" THEN {"no-lvsdb"} ELSE {},
   IF r.gds = "ok" /\ r.cell # "" /\ r.cell \notin Names(r) THEN {"no-such-cell"} ELSE {},
   IF r.gds = "ok" /\ r.cell = "" /\ Cardinality(Tops(r)) # 1 THEN {"no-single-top"} ELSE {},
   IF r.gds = "ok" /\ r.schem = "missing" THEN {"no-schematic"} ELSE {},
   IF r.level = "bad" THEN {"log-level"} ELSE {},
   IF r.diel = "bad" THEN {"diel"} ELSE {} }
Corrupt(r) == (Mode(r) = "gds" /\ r.gds = "corrupt") \/ (Mode(r) = "lvsdb" /\ r.lvsdb = "corrupt")
\* "usage", "reject", "broken" (fails, in whatever way, before any tool is called), "run"
Outcome(r) == IF Usage(r) THEN "usage" ELSE IF Corrupt(r) THEN "broken" ELSE IF Errors(r) # {} THEN "reject" ELSE "run"
Tools(r) == (IF "magic" \in r.engines THEN <<"magic">> ELSE <<>>)
            \o (IF Mode(r) = "gds" /\ r.engines \ {"magic"} # {} THEN <<"lvs">> ELSE <<>>)
            \o (IF "fc" \in r.engines THEN <<"fc">> ELSE <<>>) \o (IF "fastcap" \in r.engines THEN <<"fastcap">> ELSE <<>>)
\* the layout for LVS and MAGIC: cell -> mark
InputCells(r) == {<<x.name, x.mark, Range(x.kids)>> : x \in {y \in Range(r.cells) : y.name \in Reach(r, {Chosen(r)})}}
=============================================================================
