------------------------------ MODULE LruCache ------------------------------
(* The capacity bounded LRU caches of common/cache: a plain LRU is one shard, *)
(* a sharded cache is a family of independent LRU shards a key is routed to.  *)
(* Each shard is a sequence of [k, v], least recently used entry first.       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES nsh,      \* number of shards (1 for a plain cache)
          shardOf,  \* key -> shard
          per,      \* capacity of each shard
          sh,       \* shard -> sequence of [k |-> key, v |-> value]
          ret       \* what the last call answered

vars == <<nsh, shardOf, per, sh, ret>>

CeilDiv(a, b) == (a + b - 1) \div b
Unbounded == 1073741824   \* stands for a capacity nothing reaches
PerShard(cap, n) == IF cap = 0 THEN 1 ELSE IF cap = Unbounded THEN Unbounded ELSE CeilDiv(cap, n)

Idx(s, k) == {i \in 1..Len(s) : s[i].k = k}
Has(s, k) == Idx(s, k) # {}
At(s, k)  == CHOOSE i \in Idx(s, k) : TRUE
Del(s, k) == IF Has(s, k) THEN RemoveAt(s, At(s, k)) ELSE s
Val(s, k) == IF Has(s, k) THEN <<s[At(s, k)].v>> ELSE <<>>
Drop(s, c) == IF Len(s) > c THEN SubSeq(s, Len(s) - c + 1, Len(s)) ELSE s
Usage == LET RECURSIVE sum(_)
             sum(i) == IF i < 0 THEN 0 ELSE Len(sh[i]) + sum(i - 1)
         IN sum(nsh - 1)

New(kind, cap, so) ==
    /\ nsh' = IF kind \in {"ssync", "sasync"} THEN 16 ELSE 1
    /\ per' = IF kind \in {"ssync", "sasync"} THEN PerShard(cap, 16) ELSE cap
    /\ shardOf' = so
    /\ \A k \in DOMAIN so : so[k] < nsh'
    /\ sh' = [i \in 0..(nsh' - 1) |-> <<>>]
    /\ ret' = <<>>

Insert(k, v) ==
    LET s == shardOf[k]
        mid == IF Has(sh[s], k) THEN Del(sh[s], k)
               ELSE IF Len(sh[s]) >= per THEN Tail(sh[s]) ELSE sh[s]
    IN /\ sh' = [sh EXCEPT ![s] = Append(mid, [k |-> k, v |-> v])]
       /\ ret' = Val(sh[s], k)
       /\ UNCHANGED <<nsh, shardOf, per>>

Get(k) ==
    LET s == shardOf[k]
    IN /\ sh' = IF Has(sh[s], k)
                THEN [sh EXCEPT ![s] = Append(Del(@, k), sh[s][At(sh[s], k)])]
                ELSE sh
       /\ ret' = Val(sh[s], k)
       /\ UNCHANGED <<nsh, shardOf, per>>

Take(k) ==
    /\ sh' = [sh EXCEPT ![shardOf[k]] = Del(@, k)]
    /\ ret' = Val(sh[shardOf[k]], k)
    /\ UNCHANGED <<nsh, shardOf, per>>

(* pop: the least recently used entry of some non-empty shard; nothing only   *)
(* when the whole cache is empty.                                             *)
PopFrom(s) ==
    /\ IF sh[s] = <<>>
         THEN /\ \A t \in DOMAIN sh : sh[t] = <<>>
              /\ ret' = <<>> /\ sh' = sh
         ELSE /\ ret' = <<Head(sh[s])>>
              /\ sh' = [sh EXCEPT ![s] = Tail(@)]
    /\ UNCHANGED <<nsh, shardOf, per>>
PopShard(k) ==
    LET s == shardOf[k]
    IN /\ IF sh[s] = <<>> THEN ret' = <<>> /\ sh' = sh
          ELSE ret' = <<Head(sh[s])>> /\ sh' = [sh EXCEPT ![s] = Tail(@)]
       /\ UNCHANGED <<nsh, shardOf, per>>

SetCapacity(n) ==
    /\ per' = IF nsh = 1 THEN n ELSE PerShard(n, nsh)
    /\ sh' = [s \in DOMAIN sh |-> Drop(sh[s], per')]
    /\ ret' = <<>>
    /\ UNCHANGED <<nsh, shardOf>>

GetCapacity == ret' = <<IF per = Unbounded THEN Unbounded ELSE per * nsh>> /\ UNCHANGED <<nsh, shardOf, per, sh>>
GetUsage == ret' = <<Usage>> /\ UNCHANGED <<nsh, shardOf, per, sh>>
Clear == sh' = [s \in DOMAIN sh |-> <<>>] /\ ret' = <<>> /\ UNCHANGED <<nsh, shardOf, per>>

-----------------------------------------------------------------------------
Bounded == \A s \in DOMAIN sh : Len(sh[s]) <= per
UniqueKeys == \A s \in DOMAIN sh : \A i, j \in 1..Len(sh[s]) : sh[s][i].k = sh[s][j].k => i = j
RightShard == \A s \in DOMAIN sh : \A i \in 1..Len(sh[s]) : shardOf[sh[s][i].k] = s
=============================================================================
