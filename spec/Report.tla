------------------------------- MODULE Report -------------------------------
(* The report of an extraction: what the extractor adds to its results is also shown, under a key (kind of element,   *)
(* layers, nets), with the number it has among the elements of that key and its value.  Numbers start at 1.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* entries [key, v] of the results, items [key, no, v] of the report
KeyOf(e) == e.key
Under(s, key) == SelectSeq(s, LAMBDA e : e.key = key)
Count(s, v) == Len(SelectSeq(s, LAMBDA e : e.v = v))
\* one item per element, with its value
SameElements(es, is, key) ==
    LET a == Under(es, key)  b == Under(is, key)
    IN Len(a) = Len(b) /\ \A e \in Range(a) : Count(a, e.v) = Count(b, e.v)
Numbered(is, key) == LET b == Under(is, key) IN {i.no : i \in Range(b)} = 1..Len(b)
=============================================================================
