------------------------------ MODULE ExtModel ------------------------------
(* MAGIC writes a line of an ext file from what it has extracted; a reader scans it character by character.          *)
(* Whatever was written is read back (name, place, numbers in any of the forms %g has), other lines say nothing.     *)
EXTENDS Ext, TLC
CONSTANTS NameChars, MaxName
VARIABLES said, line, pos, cur, inq, toks
vars == <<said, line, pos, cur, inq, toks>>
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET S == Strings(n - 1) IN S \cup {Append(s, ch) : s \in {q \in S : Len(q) = n - 1}, ch \in NameChars}
NamesSet == Strings(MaxName) \ {<<>>}
\* numbers in the forms of %g: the digits, how many of them are behind the point, the exponent
NumForms == {[s |-> s, d |-> d, f |-> f, e |-> e] : s \in {-1, 1}, d \in {<<48>>, <<53>>, <<48, 53>>, <<49, 50>>}, f \in {0, 1}, e \in {-7, 0, 6}}
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
NumText(x) == (IF x.s < 0 THEN <<45>> ELSE <<>>)
              \o (IF x.f = 0 THEN x.d ELSE SubSeq(x.d, 1, Len(x.d) - 1) \o <<46>> \o SubSeq(x.d, Len(x.d), Len(x.d)))
              \o (IF x.e = 0 THEN <<>> ELSE <<101>> \o (IF x.e < 0 THEN <<45, 48>> ELSE <<43, 48>>) \o NatText(Abs(x.e)))
NumValue(x) == Norm(<<x.s * Nat0(x.d, 0), x.e - x.f>>)
IntText(n) == (IF n < 0 THEN <<45>> ELSE <<>>) \o NatText(Abs(n))
Q(n) == <<Quote>> \o n \o <<Quote>>
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<32>> \o Join(Tail(s))
One == [s |-> 1, d |-> <<48>>, f |-> 0, e |-> 0]
M1 == <<109, 49>>
Xs == {-7, 0, 12}
\* what is written: [line, what], over names, words and numbers one after the other
Written ==
   {[line |-> Join(<<PORT, Q(n), <<50>>, IntText(x), <<48>>, <<57>>, IntText(y), M1>>),
     what |-> [k |-> "Ports", label |-> Paren(n, M1), at |-> <<x, 0, 9, y>>, nums |-> <<>>]] : n \in NamesSet, x \in Xs, y \in Xs}
   \cup {[line |-> Join(<<kw, Q(n), NumText(a), NumText(One), IntText(x), <<48>>, M1>> \o tail),
     what |-> [k |-> "Nodes", label |-> Paren(n, M1), at |-> <<x, 0>>, nums |-> <<NumValue(a), <<0, 0>>>>]] :
       kw \in {NODE, SUBSTRATE}, n \in NamesSet, a \in NumForms, x \in {-7, 12}, tail \in {<<>>, <<<<48>>, <<51>>>>}}
   \cup {[line |-> Join(<<RESIST, Q(n), Q(m), NumText(a)>>),
     what |-> [k |-> "Resistors", label |-> <<n, m>>, at |-> <<>>, nums |-> <<NumValue(a)>>]] : n \in NamesSet, m \in NamesSet, a \in NumForms}
   \cup {[line |-> Join(<<RNODE, Q(n), NumText(One), NumText(a), IntText(x), <<49>>, z>>),
     what |-> IF z = <<48>> THEN [k |-> "Resistor Nodes", label |-> n, at |-> <<x, 1>>, nums |-> <<<<0, 0>>, NumValue(a)>>] ELSE Nothing] :
       n \in NamesSet, a \in NumForms, x \in {-7, 12}, z \in {<<48>>, <<49>>}}
   \* lines that say nothing: other words, a field too few, a field that is no number
   \cup {[line |-> Join(<<w, Q(n), <<50>>, <<49>>, <<48>>, <<57>>, <<57>>, M1>>), what |-> Nothing] : w \in {<<112>>, PORT \o <<115>>, <<99, 97, 112>>, <<>>}, n \in NamesSet}
   \cup {[line |-> Join(<<PORT, Q(n), <<50>>, <<49>>, <<48>>, <<57>>, M1>>), what |-> Nothing] : n \in NamesSet}
   \cup {[line |-> Join(<<RESIST, Q(n), Q(n), x>>), what |-> Nothing] : n \in NamesSet, x \in {<<101, 53>>, <<46>>, <<45>>, <<49, 101>>, <<49, 46, 50, 46>>, M1}}
Init == said \in Written /\ line = said.line /\ pos = 1 /\ cur = <<>> /\ inq = FALSE /\ toks = <<>>
Step == /\ pos <= Len(line)
        /\ LET ch == line[pos] IN
           IF inq /\ ch = Quote THEN toks' = Append(toks, cur) /\ cur' = <<>> /\ inq' = FALSE
           ELSE IF ~inq /\ ch = Quote THEN cur' = <<Quote>> /\ inq' = TRUE /\ UNCHANGED toks
           ELSE IF ~inq /\ ch = 32 THEN toks' = (IF cur = <<>> THEN toks ELSE Append(toks, cur)) /\ cur' = <<>> /\ UNCHANGED inq
           ELSE cur' = Append(cur, ch) /\ UNCHANGED <<inq, toks>>
        /\ pos' = pos + 1 /\ UNCHANGED <<said, line>>
End == /\ pos = Len(line) + 1
       /\ toks' = (IF cur = <<>> THEN toks ELSE Append(toks, cur)) /\ cur' = <<>> /\ pos' = pos + 1 /\ UNCHANGED <<said, line, inq>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
AtEnd == pos = Len(line) + 2
Scanned == AtEnd => toks = Tokens(line)
ReadBack == pos = 1 => (IF said.what.k \in {"Resistor Nodes", "Resistors"} THEN ResLine(line) = said.what /\ ExtLine(line) = Nothing
                        ELSE ExtLine(line) = said.what /\ ResLine(line) = Nothing)
=============================================================================
