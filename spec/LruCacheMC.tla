---------------------------- MODULE LruCacheMC ----------------------------
EXTENDS LruCache, Json
Keys == {"a", "b", "c"}
VARIABLE ev
mcvars == <<vars, ev>>
St == [sh |-> sh, per |-> per]
MCInit == /\ nsh = 1 /\ shardOf = [k \in Keys |-> 0] /\ per = 2 /\ sh = [i \in {0} |-> <<>>] /\ ret = <<>>
          /\ ev = [op |-> "init"]
MCNext ==
    \/ \E k \in Keys, v \in {1, 2} : Insert(k, v) /\ ev' = [op |-> "insert", k |-> k, v |-> v]
    \/ \E k \in Keys : Get(k) /\ ev' = [op |-> "get", k |-> k]
    \/ \E k \in Keys : Take(k) /\ ev' = [op |-> "remove", k |-> k]
    \/ \E s \in DOMAIN sh : PopFrom(s) /\ ev' = [op |-> "pop"]
    \/ \E n \in 1..3 : SetCapacity(n) /\ ev' = [op |-> "setcap", n |-> n]
    \/ GetUsage /\ ev' = [op |-> "usage"]
    \/ GetCapacity /\ ev' = [op |-> "cap"]
    \/ Clear /\ ev' = [op |-> "clear"]
MCSpec == MCInit /\ [][MCNext]_mcvars
MCView == St
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
(* least recently used: an entry that leaves through an insert of another key *)
(* is the one untouched for longest - stated as: the survivors keep their order *)
EvictsOldest == [][ \A k \in Keys, v \in {1, 2} :
      (ev' = [op |-> "insert", k |-> k, v |-> v] /\ ~Has(sh[0], k) /\ Len(sh[0]) = per)
        => Front(sh'[0]) = Tail(sh[0]) ]_mcvars
=============================================================================
