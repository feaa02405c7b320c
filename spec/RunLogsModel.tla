---------------------------- MODULE RunLogsModel ----------------------------
(* The steps with which kpex keeps its log files, over names and files (inodes) of a file system, for all             *)
(* interleavings of a few runs. A file of the preliminary log is opened, moved into the run directory once that is    *)
(* known (where a log that is there gets the name of a backup, made from the time of its last change), and opened     *)
(* again. Seen from outside this has to be RunLogs.                                                                   *)
(*  Shared: all runs use the same name for the preliminary log.  ByTime: a backup may replace one of the same time.   *)
(*  Open: the log of a run is still written to by later runs of the same process.                                     *)
EXTENDS RunLogs, TLC
CONSTANTS NRuns, Dirs, Fates, Shared, ByTime, Open, MaxTime
VARIABLES runs, s,          \* the runs, and what they have to do (RunLogs)
          name,             \* names: set of <<place, name, inode>>
          text,             \* inode -> lines <<run, line>>
          last,             \* inode -> time of last change
          handle,           \* run -> inodes that it writes to
          crashed, now, prev
vars == <<runs, s, name, text, last, handle, crashed, now, prev>>
Rs == 1..NRuns
Tools == {<<"lvs", "fc">>, <<"magic">>}
Inode(p, n) == IF \E e \in name : e[1] = p /\ e[2] = n THEN (CHOOSE e \in name : e[1] = p /\ e[2] = n)[3] ELSE 0
Cur == <<"log", 0>>
Pre(r) == <<"pre", IF Shared THEN 0 ELSE r>>
Init == /\ runs \in [Rs -> [dir : Dirs, key : {0}, fate : Fates, show : {TRUE}, pred : {0}, kill : {""}, n : {<<1, 0, 0, 1, 0, 1, 0, 0>>}, tools : Tools]]
        /\ prev \in {f \in [Rs -> 0..NRuns] : \A r \in Rs : f[r] < r /\ (\A q \in Rs : f[r] # 0 /\ f[q] = f[r] => q = r)}
        /\ s = S0(runs) /\ name = {} /\ text = <<>> /\ last = <<>> /\ handle = [r \in Rs |-> {}]
        /\ crashed = {} /\ now = 0
Write(h, t, ls) == [i \in DOMAIN t |-> IF i \in h THEN t[i] \o ls ELSE t[i]]
Stamp(h, t) == [i \in DOMAIN t |-> IF i \in h THEN now ELSE t[i]]
Tag(r, ls) == [i \in DOMAIN ls |-> <<r, ls[i]>>]
\* the runs of one process: prev is the run before
May(r) == ~Ended(s, r) /\ r \notin crashed /\ (s.pc[r] = "new" /\ prev[r] # 0 => Ended(s, prev[r]) \/ prev[r] \in crashed)
Start(r) ==
  /\ May(r) /\ s.pc[r] = "new"
  /\ LET i == Inode(0, Pre(r)) j == IF i = 0 THEN Len(text) + 1 ELSE i
         old == IF Open /\ prev[r] # 0 THEN handle[prev[r]] ELSE {} IN
     /\ name' = IF i = 0 THEN name \cup {<<0, Pre(r), j>>} ELSE name
     /\ text' = IF i = 0 THEN Append(text, <<>>) ELSE text
     /\ last' = IF i = 0 THEN Append(last, now) ELSE last
     /\ handle' = [handle EXCEPT ![r] = {j} \cup old]
  /\ s' = Step(s, runs, r) /\ UNCHANGED <<runs, crashed, now, prev>>
Backup(d, i) == IF ByTime THEN <<"bak", last[i]>> ELSE <<"bak", i>>
Placing(r) ==
  /\ May(r) /\ s.pc[r] = "read"
  /\ s' = Step(s, runs, r)
  /\ IF runs[r].fate = "nodir" THEN UNCHANGED <<name, text, last, handle, crashed>>
     ELSE LET d == runs[r].dir i == Inode(0, Pre(r)) c == Inode(d, Cur)
              n1 == IF c = 0 THEN name ELSE {e \in name : e # <<d, Cur, c>> /\ ~(e[1] = d /\ e[2] = Backup(d, c))} \cup {<<d, Backup(d, c), c>>} IN
       IF i = 0 THEN crashed' = crashed \cup {r} /\ name' = n1 /\ UNCHANGED <<text, last, handle>>
       ELSE LET h == (handle[r] \ {i}) \cup {i} ls == Tag(r, s'.lines[r]) IN
            /\ name' = {e \in n1 : e # <<0, Pre(r), i>>} \cup {<<d, Cur, i>>}
            /\ handle' = [handle EXCEPT ![r] = h]
            /\ text' = Write(h, text, ls) /\ last' = Stamp(h, last) /\ UNCHANGED crashed
  /\ UNCHANGED <<runs, now, prev>>
Later(r) ==
  /\ May(r) /\ s.pc[r] \in Range(Order)
  /\ s' = Step(s, runs, r)
  /\ LET ls == Tag(r, SubSeq(s'.lines[r], Len(s.lines[r]) + 1, Len(s'.lines[r]))) IN
     text' = Write(handle[r], text, ls) /\ last' = Stamp(handle[r], last)
  /\ UNCHANGED <<runs, name, handle, crashed, now, prev>>
Tick == now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<runs, s, name, text, last, handle, crashed, prev>>
Next == Tick \/ \E r \in Rs : Start(r) \/ Placing(r) \/ Later(r)
Spec == Init /\ [][Next]_vars

NoCrash == crashed = {}
\* the files in a run directory are those of the runs placed there, with exactly their lines, the newest being the current one
Refines == \A d \in Dirs :
   LET L == LogsIn(s, runs, d) F == {e \in name : e[1] = d} IN
   /\ Cardinality(F) = Len(L)
   /\ \A k \in DOMAIN L : \E e \in F : text[e[3]] = Tag(L[k], s.lines[L[k]])
   /\ Len(L) > 0 => Inode(d, Cur) # 0 /\ text[Inode(d, Cur)] = Tag(Last(L), s.lines[Last(L)])
=============================================================================
