---------------------------- MODULE KvCacheMC ----------------------------
EXTENDS KvCache, Json
VARIABLE ev
St == [cap |-> cap, q |-> q]
MCInit == cap \in 1..4 /\ q = <<>> /\ ret = <<>> /\ ev = [op |-> "knew", cap |-> cap]
K == 0..4
MCNext ==
  \/ \E k \in K, v \in {1, 2} : (IF q = <<>> THEN TRUE ELSE (k > q[Len(q)].k \/ Idx(k) # {})) /\ Put(k, v) /\ ev' = [op |-> "kput", k |-> k, v |-> v]
  \/ \E k \in K : Get(k) /\ ev' = [op |-> "kget", k |-> k]
  \/ Newest /\ ev' = [op |-> "klast"]
  \/ \E k \in K : DelBefore(k) /\ ev' = [op |-> "kdelbefore", k |-> k]
  \/ \E k \in K : DelAfter(k) /\ ev' = [op |-> "kdelafter", k |-> k]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev>>
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
=============================================================================
