----------------------------- MODULE LvsHistory -----------------------------
(* Histories of edits and runs, as a user sees them: several layout files, output and cache directories, cells.      *)
(*   [op = "edit", file]                                                                                             *)
(*   [op = "run", file, cell, out, cdir, on, lvs, during, disk]                                                      *)
(*        on: --cache-lvs; lvs: what LVS does (ok | nonzero: result though the exit status tells failure |           *)
(*        none: no result | half: incomplete result | silent: no result, exit status 0);                             *)
(*        during: the file is edited while LVS runs (no | before | after LVS reads it, by the user; both);           *)
(*        disk: the disk is full when the LVSDB gets cached;  cdir: 0 is the default, within the output directory    *)
(* The state: ver[f] current version, mod[f] number of changes so far, cache[key] = [ver, mod].                      *)
(* A run answers with [ok, ver, called]: success, version of its result, versions that LVS was called with.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Files, Cells, Outs, CDirs
NoEntry == [ver |-> 0, mod |-> -1]
Keys == Files \X Cells \X (CDirs \cup {100 + o : o \in Outs})
S0 == [ver |-> [f \in Files |-> f], mod |-> [f \in Files |-> 0], next |-> Cardinality(Files) + 1, cache |-> [k \in Keys |-> NoEntry]]
Key(e) == <<e.file, e.cell, IF e.cdir = 0 THEN 100 + e.out ELSE e.cdir>>
Bump(s, f) == [s EXCEPT !.ver[f] = s.next, !.mod[f] = @ + 1, !.next = @ + 1]
Valid(s, e) == e.on /\ s.cache[Key(e)].mod = s.mod[e.file]
Delivers(e) == e.lvs \in {"ok", "nonzero"}
Edits(e) == CASE e.during = "no" -> 0 [] e.during = "both" -> 2 [] OTHER -> 1
\* the state when LVS reads the layout, and when it is over
AtRead(s, e) == IF e.during \in {"before", "both"} THEN Bump(s, e.file) ELSE s
AfterLvs(s, e) == IF e.during \in {"after", "both"} THEN Bump(AtRead(s, e), e.file) ELSE AtRead(s, e)
\* what the run must answer
Expect(s, e) == IF Valid(s, e)
                THEN [ok |-> TRUE, ver |-> s.cache[Key(e)].ver, called |-> <<>>]
                ELSE LET v == AtRead(s, e).ver[e.file]
                     IN [ok |-> Delivers(e) /\ ~(e.disk /\ e.on), ver |-> IF Delivers(e) /\ ~(e.disk /\ e.on) THEN v ELSE 0, called |-> <<v>>]
\* the state after it
After(s, e) == IF e.op = "edit" THEN Bump(s, e.file)
               ELSE IF Valid(s, e) THEN s
               ELSE LET t == AfterLvs(s, e)
                        v == AtRead(s, e).ver[e.file]
                    IN IF e.on /\ Delivers(e) /\ ~e.disk THEN [t EXCEPT !.cache[Key(e)] = [ver |-> v, mod |-> s.mod[e.file]]]
                       ELSE t
\* the properties of the contract itself, checked over all short histories
EditEvents == [op : {"edit"}, file : Files]
RunEvents == [op : {"run"}, file : Files, cell : Cells, out : Outs, cdir : CDirs, on : BOOLEAN,
              lvs : {"ok", "nonzero", "none", "half", "silent"}, during : {"no", "before", "after", "both"}, disk : BOOLEAN]
\* versions that were current at some time of the run
Current(s, e) == LET f == e.file IN {s.ver[f]} \cup (IF Valid(s, e) THEN {} ELSE {AtRead(s, e).ver[f], AfterLvs(s, e).ver[f]})
=============================================================================
