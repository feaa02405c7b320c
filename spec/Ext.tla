-------------------------------- MODULE Ext --------------------------------
(* The files MAGIC writes of an extraction (<cell>.ext, <cell>.res.ext), character by character, and what a report of *)
(* them shows. Characters are code points; a line is a sequence of them.                                              *)
(* Coordinates of the files are in units of 5 nm; the report shows nm.                                                *)
EXTENDS Decimal, FiniteSets
Blank == {32, 9, 10, 13}
Quote == 34
Digits == 48..57
RECURSIVE Lex(_, _, _, _)
\* tokens: words, separated by blanks; a quoted word is a token of its own, which keeps its first quote
Lex(line, i, cur, toks) ==
   IF i > Len(line) THEN IF cur = <<>> THEN toks ELSE Append(toks, cur)
   ELSE LET ch == line[i]
            quoted == cur # <<>> /\ cur[1] = Quote
        IN IF quoted THEN IF ch = Quote THEN Lex(line, i + 1, <<>>, Append(toks, cur)) ELSE Lex(line, i + 1, Append(cur, ch), toks)
           ELSE IF ch \in Blank THEN Lex(line, i + 1, <<>>, IF cur = <<>> THEN toks ELSE Append(toks, cur))
           ELSE Lex(line, i + 1, Append(cur, ch), toks)
Tokens(line) == Lex(line, 1, <<>>, <<>>)
IsName(t) == Len(t) >= 2 /\ t[1] = Quote
NameOf(t) == Tail(t)
IsWord(t) == t # <<>> /\ t[1] # Quote
\* ---- numbers: [sign] digits [. digits] [e [sign] digits]
Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Sign(t) == IF t # <<>> /\ t[1] = 45 THEN -1 ELSE 1
Unsigned(t) == IF Signed(t) THEN Tail(t) ELSE t
AllDigits(t) == \A i \in DOMAIN t : t[i] \in Digits
IsNat(t) == t # <<>> /\ AllDigits(t)
IsInt(t) == IsNat(Unsigned(t))
RECURSIVE Nat0(_, _)
Nat0(t, acc) == IF t = <<>> THEN acc ELSE Nat0(Tail(t), 10 * acc + (Head(t) - 48))
ToInt(t) == Sign(t) * Nat0(Unsigned(t), 0)
At1(t, S) == LET I == {i \in DOMAIN t : t[i] \in S} IN IF I = {} THEN Len(t) + 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Mant(t) == SubSeq(t, 1, At1(t, {69, 101}) - 1)
Expo(t) == SubSeq(t, At1(t, {69, 101}) + 1, Len(t))
Whole(m) == SubSeq(m, 1, At1(m, {46}) - 1)
Frac(m) == SubSeq(m, At1(m, {46}) + 1, Len(m))
IsNumber(t) == LET u == Unsigned(t)
                   m == Mant(u)
               IN /\ AllDigits(Whole(m)) /\ AllDigits(Frac(m)) /\ Whole(m) \o Frac(m) # <<>>
                  /\ (Len(m) = Len(u) \/ IsInt(Expo(u)))
RECURSIVE NoZeros(_)
NoZeros(t) == IF t # <<>> /\ t[1] = 48 THEN NoZeros(Tail(t)) ELSE t
ToDecimal(t) == LET u == Unsigned(t)
                    m == Mant(u)
                    k == IF Len(m) = Len(u) THEN 0 ELSE ToInt(Expo(u))
                IN Norm(<<Sign(t) * Nat0(NoZeros(Whole(m) \o Frac(m)), 0), k - Len(Frac(m))>>)
\* ---- lines
PORT == <<112, 111, 114, 116>>
NODE == <<110, 111, 100, 101>>
SUBSTRATE == <<115, 117, 98, 115, 116, 114, 97, 116, 101>>
DEVICE == <<100, 101, 118, 105, 99, 101>>
RNODE == <<114, 110, 111, 100, 101>>
RESIST == <<114, 101, 115, 105, 115, 116>>
Ints(t, I) == \A i \in I : IsInt(t[i])
Box(t, k) == <<ToInt(t[k]), ToInt(t[k + 1]), ToInt(t[k + 2]), ToInt(t[k + 3])>>
Paren(a, b) == a \o <<32, 40>> \o b \o <<41>>
TYPE == <<84, 121, 112, 101, 61>>            \* "Type="
MODEL == <<32, 77, 111, 100, 101, 108, 61>>  \* " Model="
\* what a line of an ext file says: [k, label, box | point, nums]
Nothing == [k |-> "none", label |-> <<>>, at |-> <<>>, nums |-> <<>>]
ExtLine(line) ==
   LET t == Tokens(line) n == Len(t) IN
   IF n = 8 /\ t[1] = PORT /\ IsName(t[2]) /\ IsNat(t[3]) /\ Ints(t, 4..7) /\ IsWord(t[8])
      THEN [k |-> "Ports", label |-> Paren(NameOf(t[2]), t[8]), at |-> Box(t, 4), nums |-> <<>>]
   ELSE IF n >= 7 /\ t[1] \in {NODE, SUBSTRATE} /\ IsName(t[2]) /\ IsNumber(t[3]) /\ IsNumber(t[4]) /\ Ints(t, 5..6) /\ IsWord(t[7])
      THEN [k |-> "Nodes", label |-> Paren(NameOf(t[2]), t[7]), at |-> <<ToInt(t[5]), ToInt(t[6])>>, nums |-> <<ToDecimal(t[3]), ToDecimal(t[4])>>]
   ELSE IF n >= 7 /\ t[1] = DEVICE /\ IsWord(t[2]) /\ IsWord(t[3]) /\ Ints(t, 4..7)
      THEN [k |-> "Devices", label |-> TYPE \o t[2] \o MODEL \o t[3], at |-> Box(t, 4), nums |-> <<>>]
   ELSE Nothing
ResLine(line) ==
   LET t == Tokens(line) n == Len(t) IN
   IF n = 7 /\ t[1] = RNODE /\ IsName(t[2]) /\ IsNumber(t[3]) /\ IsNumber(t[4]) /\ Ints(t, 5..6) /\ t[7] = <<48>>
      THEN [k |-> "Resistor Nodes", label |-> NameOf(t[2]), at |-> <<ToInt(t[5]), ToInt(t[6])>>, nums |-> <<ToDecimal(t[3]), ToDecimal(t[4])>>]
   ELSE IF n = 4 /\ t[1] = RESIST /\ IsName(t[2]) /\ IsName(t[3]) /\ IsNumber(t[4])
      THEN [k |-> "Resistors", label |-> <<NameOf(t[2]), NameOf(t[3])>>, at |-> <<>>, nums |-> <<ToDecimal(t[4])>>]
   ELSE Nothing
Said(s) == s.k # "none"
ExtFile(lines) == SelectSeq([i \in DOMAIN lines |-> ExtLine(lines[i])], Said)
ResFile(lines) == SelectSeq([i \in DOMAIN lines |-> ResLine(lines[i])], Said)
Only(s, k) == SelectSeq(s, LAMBDA x : x.k = k)
\* ---- the report: markers in nm, boxes of points are 20 nm wide
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Marker(at) == IF Len(at) = 2 THEN <<5 * at[1], 5 * at[2], 5 * at[1] + 20, 5 * at[2] + 20>>
              ELSE <<5 * Lo(at[1], at[3]), 5 * Lo(at[2], at[4]), 5 * Hi(at[1], at[3]), 5 * Hi(at[2], at[4])>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* items of a resistor: its two ends, wherever there is a node of that name
Ends(nodes, name) == [i \in 1..Len(SelectSeq(nodes, LAMBDA x : x.label = name)) |-> Marker(SelectSeq(nodes, LAMBDA x : x.label = name)[i].at)]
ResItems(file) ==
   LET nodes == Only(file, "Resistor Nodes")
       res == Only(file, "Resistors")
   IN Flat([i \in DOMAIN res |-> LET e == Ends(nodes, res[i].label[1]) \o Ends(nodes, res[i].label[2])
                                 IN [j \in DOMAIN e |-> [k |-> "Resistors", label |-> res[i].label[1] \o <<8596>> \o res[i].label[2], n |-> i - 1,
                                                         value |-> res[i].nums[1], box |-> e[j]]]])
PlainItems(file) == LET f == SelectSeq(file, LAMBDA x : x.k # "Resistors")
                    IN [i \in DOMAIN f |-> [k |-> f[i].k, label |-> f[i].label, n |-> 0, value |-> <<0, 0>>, box |-> Marker(f[i].at)]]
\* a cell: [ext : lines, hasres, res : lines]
Items(c) == PlainItems(ExtFile(c.ext)) \o (IF c.hasres THEN PlainItems(ResFile(c.res)) \o ResItems(ResFile(c.res)) ELSE <<>>)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
=============================================================================
