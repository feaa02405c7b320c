---------------------------- MODULE StarMeshTrace ----------------------------
(* kind "net": r.pts[p] = <<x, y>>; r.ops = <<[op, a, b, v = <<num, den>>, obs]>>, obs = [ids = <<[p, id]>>,             *)
(* s = <<[a, b, v]>> (conductances / 1e-4, both directions), star = <<[a, b, v]>>, text, ohms = <<[a, b, v]>> (each pair   *)
(* once, from to_string; ohms in 1e-4), errors, found = <<point>>].  kind "cond": Conductance arithmetic.                *)
(* kind "tri": a triangle and what it is split into.                                                                 *)
EXTENDS StarMesh, Json, TLC
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, bad
After(g, o, keep) ==
    CASE o.op = "node" -> Node(g, o.a)
      [] o.op = "add" -> Add(g, o.a, o.b, o.v)
      [] o.op = "elim" -> Elim(g, o.a)
      [] o.op = "remove" -> Drop(g, o.a)
      [] o.op = "join" -> Join(g, o.a, o.b)
      [] o.op = "all" -> ElimAll(g, keep)
      [] OTHER -> g
\* x / 10^4 is the rational (with a relative error of 1 / rel)
Is(x, q, rel) == LET w == (q[1] \div q[2]) * 10000 + ((q[1] % q[2]) * 10000) \div q[2] IN Abs(x - w) <= 2 + Abs(w) \div rel
Same(s, g, both, inv, rel) ==
    /\ {{x.a, x.b} : x \in Range(s)} = DOMAIN g.c
    /\ Len(s) = (IF both THEN 2 ELSE 1) * Cardinality(DOMAIN g.c)
    /\ Cardinality({<<x.a, x.b>> : x \in Range(s)}) = Len(s)
    /\ \A x \in Range(s) : x.a # x.b /\ Is(x.v, IF inv THEN <<g.c[{x.a, x.b}][2], g.c[{x.a, x.b}][1]>> ELSE g.c[{x.a, x.b}], rel)
IdOf(o, p) == {x.id : x \in {x \in Range(o.obs.ids) : x.p = p}}
Found(r, g, o) == CASE o.op = "on" -> {p \in g.nodes : OnEdge(r.pts[p], o.where)}
                    [] o.op = "in" -> {p \in g.nodes : InBox(r.pts[p], o.where)}
                    [] OTHER -> {}
OpFaults(r, g, o, prev) == UNION {
    IF {x.p : x \in Range(o.obs.ids)} # g.nodes \/ Len(o.obs.ids) # Cardinality(g.nodes) THEN {"nodes"} ELSE {},
    IF Cardinality({x.id : x \in Range(o.obs.ids)}) # Len(o.obs.ids) THEN {"ids-shared"} ELSE {},
    IF \E x \in Range(o.obs.ids), y \in Range(prev) : x.p = y.p /\ x.id # y.id THEN {"id-changed"} ELSE {},
    IF ~Same(o.obs.s, g, TRUE, FALSE, 100000000) THEN {"conductances"} ELSE {},
    IF ~Same(o.obs.star, g, TRUE, FALSE, 100000000) THEN {"stars"} ELSE {},
    IF ~Same(o.obs.text, g, FALSE, FALSE, 100000) THEN {"text"} ELSE {},
    IF ~Same(o.obs.ohms, g, FALSE, TRUE, 100000) THEN {"text-ohms"} ELSE {},
    IF o.obs.errors # 0 THEN {"self-check"} ELSE {},
    IF Range(o.obs.found) # Found(r, g, o) \/ Len(o.obs.found) # Cardinality(Found(r, g, o)) THEN {"found"} ELSE {} }
NetFaults(r) ==
    FoldLeft(LAMBDA s, o : LET g == After(s.g, o, Range(r.keep))
                           IN [g |-> g, ids |-> o.obs.ids, bad |-> s.bad \cup OpFaults(r, g, o, s.ids)],
             [g |-> Empty, ids |-> <<>>, bad |-> {}], r.ops).bad
\* x = [op, a, b, y (result), a2, b2 (operands afterwards)]
CondFaults(r) ==
    UNION {LET x == r.calc[i]
               want == CASE x.op \in {"parallel", "add_parallel"} -> Plus(x.a, x.b)
                         [] x.op \in {"serial", "add_serial"} -> IF x.a[1] = 0 \/ x.b[1] = 0 THEN <<0, 1>> ELSE Over(Times(x.a, x.b), Plus(x.a, x.b))
                         [] OTHER -> <<x.a[2], x.a[1]>>
           IN UNION { IF ~Is(x.y, want, IF x.op = "res" THEN 100000 ELSE 100000000) THEN {"conductance"} ELSE {},
                      IF ~Is(x.a2, IF x.op \in {"add_parallel", "add_serial"} THEN want ELSE x.a, 100000000) \/ ~Is(x.b2, x.b, 100000000) THEN {"operand"} ELSE {} }
           : i \in DOMAIN r.calc}
\* triangles: twice the area, with sign
Area(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Dist(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
MaxOf(a, b) == IF a > b THEN a ELSE b
\* the longest side and the sum of the squares of the others
Obtuse(t) == \E i \in 1..3 : LET a == t[i]  b == t[(i % 3) + 1]  c == t[((i + 1) % 3) + 1] IN Dist(a, b) + Dist(b, c) < Dist(a, c)
TriFaults(r) ==
    LET per == Abs(r.t[1][1] - r.t[2][1]) + Abs(r.t[1][2] - r.t[2][2]) + Abs(r.t[2][1] - r.t[3][1]) + Abs(r.t[2][2] - r.t[3][2]) + Abs(r.t[3][1] - r.t[1][1]) + Abs(r.t[3][2] - r.t[1][2])
        Total == FoldLeft(LAMBDA s, p : s + Abs(Area(p[1], p[2], p[3])), 0, r.parts)
    IN UNION {
        IF ~Obtuse(r.t) /\ (Len(r.parts) # 1 \/ Range(r.parts[1]) # Range(r.t)) THEN {"split-without-need"} ELSE {},
        IF Obtuse(r.t) /\ Len(r.parts) # 2 THEN {"not-split"} ELSE {},
        IF Abs(Total - Abs(Area(r.t[1], r.t[2], r.t[3]))) > per THEN {"not-the-triangle"} ELSE {} }
Verdict(r) == IF r.crash THEN {"crash"} ELSE CASE r.kind = "net" -> NetFaults(r) [] r.kind = "cond" -> CondFaults(r) [] OTHER -> TriFaults(r)
TraceInit == l = 1 /\ bad = {}
TraceNext == /\ l <= Len(Trace)
             /\ bad' = bad \cup {<<l, c>> : c \in Verdict(Trace[l])}
             /\ l' = l + 1
             /\ (l = Len(Trace) => TLCSet(1, bad'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, bad>>
TraceAccepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ JsonSerialize("verdict.json", SetToSeq(TLCGet(1)))
=============================================================================
