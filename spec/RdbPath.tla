------------------------------ MODULE RdbPath ------------------------------
(* Category paths of a KLayout report database: names separated by dots, quoted unless they are plain words; characters *)
(* as code points. And: what a repaired database holds.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
Letter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ c = 36
Digit(c) == c >= 48 /\ c <= 57
Plain(n) == n # <<>> /\ Letter(n[1]) /\ \A i \in DOMAIN n : Letter(n[i]) \/ Digit(n[i])
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Octal(b) == <<92, 48 + (b \div 64), 48 + ((b \div 8) % 8), 48 + (b % 8)>>
Cat(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
EncChar(c) == CASE c \in {39, 92} -> <<92, c>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>>
                [] c >= 32 /\ c <= 126 -> <<c>>
                [] OTHER -> Cat([i \in DOMAIN Utf8(c) |-> Octal(Utf8(c)[i])])
EncName(n) == IF Plain(n) THEN n ELSE <<39>> \o Cat([i \in DOMAIN n |-> EncChar(n[i])]) \o <<39>>
Encode(p) == Cat([i \in DOMAIN p |-> IF i = 1 THEN EncName(p[i]) ELSE <<46>> \o EncName(p[i])])

\* reading, character by character: st = [words, bytes, quoted, esc = <<pending characters of an escape>> or none]
Start == [words |-> <<>>, bytes |-> <<>>, quoted |-> FALSE, esc |-> <<>>, on |-> FALSE]
Value(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
Put(st, bs) == [st EXCEPT !.bytes = @ \o bs]
Step(st, c) ==
    IF st.on
    THEN IF c >= 48 /\ c <= 55
         THEN IF Len(st.esc) = 2 THEN [st EXCEPT !.bytes = Append(@, 64 * (st.esc[1] - 48) + 8 * (st.esc[2] - 48) + (c - 48)), !.esc = <<>>, !.on = FALSE]
              ELSE [st EXCEPT !.esc = Append(@, c)]
         ELSE [st EXCEPT !.bytes = @ \o Utf8(Value(c)), !.on = FALSE]
    ELSE CASE c = 92 -> [st EXCEPT !.on = TRUE]
           [] c = 39 -> [st EXCEPT !.quoted = ~@]
           [] c = 46 /\ ~st.quoted -> [st EXCEPT !.words = Append(@, st.bytes), !.bytes = <<>>]
           [] OTHER -> Put(st, Utf8(c))
Result(st) == Append(st.words, st.bytes)
Bytes(n) == Cat([i \in DOMAIN n |-> Utf8(n[i])])

\* ------------------------------------------------------------------ repair
Ancestors(p) == {SubSeq(p, 1, i) : i \in 1..Len(p)}
Closed(cats) == \A p \in cats : Ancestors(p) \subseteq cats
Loadable(cats, items) == \A i \in Range(items) : i \in cats
Repaired(cats, items) == cats \cup UNION {Ancestors(i) : i \in Range(items)}
=============================================================================
