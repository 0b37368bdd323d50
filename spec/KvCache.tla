------------------------------ MODULE KvCache ------------------------------
(* CircularKVCache (the raft entry cache): the newest cap distinct keys in  *)
(* insertion order, with range deletes from either end.                      *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
VARIABLES cap, q, ret      \* q: sequence of [k, v], oldest first
vars == <<cap, q, ret>>
Idx(k) == {i \in 1..Len(q) : q[i].k = k}
Limit == cap
New(c) == cap' = c /\ q' = <<>> /\ ret' = <<>>
Put(k, v) ==
    /\ IF Idx(k) # {}
       THEN q' = [i \in 1..Len(q) |-> IF q[i].k = k THEN [k |-> k, v |-> v] ELSE q[i]]
       ELSE q' = Append(IF Len(q) >= Limit THEN Tail(q) ELSE q, [k |-> k, v |-> v])
    /\ ret' = <<>> /\ UNCHANGED cap
Get(k) == ret' = (IF Idx(k) = {} THEN <<>> ELSE <<q[CHOOSE i \in Idx(k) : TRUE].v>>) /\ UNCHANGED <<cap, q>>
Newest == ret' = (IF q = <<>> THEN <<>> ELSE <<q[Len(q)].v>>) /\ UNCHANGED <<cap, q>>
RECURSIVE CutF(_, _), CutB(_, _)
CutF(s, k) == IF s # <<>> /\ Head(s).k < k THEN CutF(Tail(s), k) ELSE s
CutB(s, k) == IF s # <<>> /\ s[Len(s)].k >= k THEN CutB(Front(s), k) ELSE s
DelBefore(k) == q' = CutF(q, k) /\ ret' = <<>> /\ UNCHANGED cap
DelAfter(k) == q' = CutB(q, k) /\ ret' = <<>> /\ UNCHANGED cap
Bounded == Len(q) <= Limit
Distinct == \A i, j \in 1..Len(q) : q[i].k = q[j].k => i = j
Ascending == \A i \in 1..(Len(q) - 1) : q[i].k < q[i + 1].k
=============================================================================
