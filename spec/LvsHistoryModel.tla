-------------------------- MODULE LvsHistoryModel --------------------------
(* All short histories keep the contract; simulated long ones are printed, to be replayed into the real code.        *)
EXTENDS LvsHistory, Json
CONSTANTS Depth, Dumping, Calm     \* Calm: few failures and edits, so that caches are used a lot
VARIABLES s, h, ans
Init == s = S0 /\ h = <<>> /\ ans = [ok |-> TRUE, ver |-> 0, cur |-> {0}, called |-> <<>>]
\* while LVS is not called nothing happens to the file, the disk is full only now and then
Sensible(e) == /\ (e.disk => e.on /\ e.lvs = "ok")
               /\ (e.lvs \in {"none", "half", "silent"} => e.during = "no")
               /\ (Calm => e.on /\ ~e.disk /\ e.lvs \in {"ok", "half"} /\ e.during \in {"no", "after"})
Do(e) == /\ Len(h) < Depth
         /\ s' = After(s, e) /\ h' = Append(h, e)
         /\ ans' = IF e.op = "edit" THEN [ok |-> FALSE, ver |-> 0, cur |-> {}, called |-> <<>>]
                   ELSE LET x == Expect(s, e) IN [ok |-> x.ok, ver |-> x.ver, cur |-> Current(s, e), called |-> x.called]
Next == \/ \E e \in EditEvents : Do(e)
        \/ \E e \in {x \in RunEvents : Sensible(x)} : Do(e)
Spec == Init /\ [][Next]_<<s, h, ans>>
Fresh == ans.ok => ans.ver \in ans.cur
CacheCurrent == \A k \in Keys : s.cache[k].mod = s.mod[k[1]] => s.cache[k].ver = s.ver[k[1]]
View == <<s, Len(h), ans>>
Dump == Dumping /\ Len(h) = Depth => PrintT(<<"HISTORY", ToJson(h)>>)
=============================================================================
