---------------------------- MODULE RdbPathModel ----------------------------
(* Reading back what was written, for every path of MaxWords names of MaxLen characters; and repairing a category tree *)
(* by inserting the missing names of each path, one after the other.                                                  *)
EXTENDS RdbPath, TLC
CONSTANTS Chars, MaxLen, MaxWords, TreeNames, TreeDepth, MaxItems
VARIABLES path, pos, st, cats0, cats, items, at
vars == <<path, pos, st, cats0, cats, items, at>>
SeqsTo(S, a, b) == UNION {[1..k -> S] : k \in a..b}
Paths == SeqsTo(SeqsTo(Chars, 0, MaxLen), 1, MaxWords)
TreePaths == SeqsTo(TreeNames, 1, TreeDepth)
InitPath == /\ path \in Paths /\ pos = 0 /\ st = Start /\ cats0 = {} /\ cats = {} /\ items = <<>> /\ at = <<1, 1>>
Read == /\ pos < Len(Encode(path)) /\ pos' = pos + 1 /\ st' = Step(st, Encode(path)[pos']) /\ UNCHANGED <<path, cats0, cats, items, at>>
SpecPath == InitPath /\ [][Read]_vars
ReadBack == pos = Len(Encode(path)) => /\ Result(st) = [i \in DOMAIN path |-> Bytes(path[i])]
                                       /\ ~st.quoted /\ ~st.on
\* different paths are written differently: a path in the file names one category
InitTree == /\ cats0 \in {c \in SUBSET TreePaths : Closed(c)} /\ cats = cats0
            /\ items \in SeqsTo(TreePaths, 0, MaxItems) /\ at = <<1, 1>>
            /\ path = <<>> /\ pos = 0 /\ st = Start
Walk == /\ at[1] <= Len(items)
        /\ LET p == SubSeq(items[at[1]], 1, at[2])
           IN cats' = cats \cup {p}
        /\ at' = IF at[2] = Len(items[at[1]]) THEN <<at[1] + 1, 1>> ELSE <<at[1], at[2] + 1>>
        /\ UNCHANGED <<path, pos, st, cats0, items>>
SpecTree == InitTree /\ [][Walk]_vars /\ WF_vars(Walk)
AlwaysTree == Closed(cats) /\ cats0 \subseteq cats
Done == at[1] > Len(items)
AtEnd == Done => cats = Repaired(cats0, items) /\ Loadable(cats, items)
NothingToDo == Loadable(cats0, items) => cats = cats0
Ends == <>Done
=============================================================================
