------------------------------ MODULE RunLogs ------------------------------
(* Runs of kpex that share a machine: what each of them has to do, whatever the others do at the same time.          *)
(* A run goes from barrier to barrier: it reads its layout, the tools of its engines are called (LVS unless its cache *)
(* entry is there by then), it ends. A run that is accepted has log files in its run directory: those that were there     *)
(* before are kept as backups. They hold the lines that its tools print, if its log level shows them.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* a run: [dir, key (0: no cache), fate, show, pred (run that has to end before, in the same process or directory; 0), kill, n, tools]
\*  fate: "ok", "refused" (by its arguments, after its directory is known), "nodir" (before that), or the tool that fails
\*  kill: the barrier at which it is killed, or ""
\*  n: number of lines that the tools print: each before and after its barrier
Order == <<"magic", "lvs", "fc", "fastcap">>
Before(t) == CASE t = "lvs" -> 1 [] t = "fc" -> 3 [] t = "magic" -> 5 [] t = "fastcap" -> 7
Failing(t) == CASE t = "lvs" -> "lvsfail" [] t = "fc" -> "fcfail" [] t = "magic" -> "magicfail" [] t = "fastcap" -> "fastcapfail"
Part(x, p) == [i \in 1..x.n[p] |-> 100 * p + i]
Shown(x, p) == IF x.show THEN Part(x, p) ELSE <<>>

\* the cache: for each key the run whose LVS result is there
S0(runs) == [pc |-> [r \in DOMAIN runs |-> "new"], src |-> [r \in DOMAIN runs |-> 0], lines |-> [r \in DOMAIN runs |-> <<>>],
             exact |-> [r \in DOMAIN runs |-> TRUE], cache |-> {}, placed |-> <<>>]
Hit(s, x) == \E c \in s.cache : c[1] = x.key
HitOf(s, x) == (CHOOSE c \in s.cache : c[1] = x.key)[2]
Ended(s, r) == s.pc[r] \in {"exit0", "exit1", "killed"}
MayStep(s, runs, r) == ~Ended(s, r) /\ (s.pc[r] = "new" /\ runs[r].pred # 0 => Ended(s, runs[r].pred))

Go(s, r, at, more) == [s EXCEPT !.pc[r] = at, !.lines[r] = @ \o more]
\* goes on behind tool i of the order (0: none yet): LVS is passed over if the cache has its result
RECURSIVE Onward(_, _, _, _, _)
Onward(s, x, r, i, more) ==
  IF i = Len(Order) THEN Go(s, r, "exit0", more)
  ELSE LET t == Order[i + 1] IN
    IF t \notin Range(x.tools) THEN Onward(s, x, r, i + 1, more)
    ELSE IF t # "lvs" THEN Go(s, r, t, more \o Shown(x, Before(t)))
    ELSE IF x.key # 0 /\ Hit(s, x) THEN Onward([s EXCEPT !.src[r] = HitOf(s, x)], x, r, i + 1, more)
    ELSE Go([s EXCEPT !.src[r] = r], r, t, more \o Shown(x, Before(t)))
Stored(s, x, r) == IF x.key # 0 THEN [s EXCEPT !.cache = {c \in @ : c[1] # x.key} \cup {<<x.key, r>>}] ELSE s
Step(s, runs, r) ==
  LET x == runs[r] t == s.pc[r] IN
  IF x.kill # "" /\ t = x.kill THEN [s EXCEPT !.pc[r] = "killed", !.exact[r] = FALSE]
  ELSE CASE t = "new" -> Go(s, r, "read", <<>>)
    [] t = "read" ->
        IF x.fate = "nodir" THEN Go(s, r, "exit1", <<>>)
        ELSE LET q == [s EXCEPT !.placed = Append(@, r)] IN
             IF x.fate = "refused" THEN Go(q, r, "exit1", <<>>) ELSE Onward(q, x, r, 0, <<>>)
    [] OTHER ->
        IF x.fate = Failing(t) THEN Go(s, r, "exit1", Shown(x, Before(t) + 1))
        ELSE Onward(IF t = "lvs" THEN Stored(s, x, r) ELSE s, x, r, CHOOSE i \in DOMAIN Order : Order[i] = t, Shown(x, Before(t) + 1))

\* the log files of a directory, oldest first: the run whose lines each holds
LogsIn(s, runs, d) == SelectSeq(s.placed, LAMBDA r : runs[r].dir = d)
=============================================================================
