------------------------------- MODULE MetaMC -------------------------------
(* Small instances of Meta: who may do what (Area = "who") and where data of *)
(* which time goes (Area = "where").                                         *)
EXTENDS Meta, Json
CONSTANTS Area, MaxHw
VARIABLES St, ev
vars == <<St, ev>>

Db(r, s, dur) == [op |-> "createdb", t |-> "t1", d |-> "d", s |-> s, r |-> r, dur |-> dur, ttl |-> 0, prec |-> "ns"]
Who == {[op |-> "mkuser", n |-> p[1], id |-> p[2], c |-> "-", adm |-> "-"] : p \in {<<"u", 1>>, <<"u2", 2>>}}
  \cup {[op |-> "dropuser", n |-> n] : n \in {"u", "u2"}}
  \cup {[op |-> "mkten", n |-> "t1", id |-> 3, c |-> "-", lim |-> -1], [op |-> "dropten", n |-> "t1"]}
  \cup {Db(0, 1, 1), [op |-> "dropdb", t |-> "t1", d |-> "d"]}
  \cup {[op |-> o, t |-> "t1", id |-> i, role |-> r] : o \in {"addmem", "chmem"}, i \in 1..2, r \in {"s:member", "c:r"}}
  \cup {[op |-> "rmmem", t |-> "t1", id |-> i] : i \in 1..2}
  \cup {[op |-> "mkrole", t |-> "t1", n |-> "r", sys |-> "-", pr |-> <<>>], [op |-> "droprole", t |-> "t1", n |-> "r"]}
  \cup {[op |-> o, t |-> "t1", n |-> "r", pr |-> q] : o \in {"grant", "revoke"}, q \in {<< <<"d", "r">> >>, << <<"d", "a">> >>, << <<"d", "r">>, <<"d", "a">> >>}}
Where == {[op |-> "addnode", id |-> i, addr |-> IF i = 1 THEN "a1" ELSE "a2"] : i \in 1..2}
  \cup {[op |-> "metrics", id |-> i, free |-> 5, st |-> s] : i \in 1..2, s \in {"ok"}} \cup {[op |-> "metrics", id |-> 2, free |-> 9, st |-> "broken"]}
  \cup {Db(1, 2, 2), [op |-> "dropdb", t |-> "t1", d |-> "d"]}
  \cup {[Db(p[1], p[2], p[3]) EXCEPT !.op = "alterdb"] : p \in {<<1, 1, 3>>, <<2, 1, 2>>}}
  \cup {[op |-> "mkbk", t |-> "t1", d |-> "d", ts |-> ts] : ts \in {-1, 0, 2, 4}}
  \cup {[op |-> "delbk", t |-> "t1", d |-> "d", b |-> b, g |-> 0] : b \in 0..1}
  \cup {[op |-> "upset", t |-> "t1", d |-> "d", b |-> 0, g |-> g, del |-> dl, add |-> ad] : g \in 0..1, dl \in {<<>>, <<0>>, <<0, 1>>}, ad \in {<<>>, << <<100, 1>> >>}}
  \cup {[op |-> "leader", t |-> "t1", d |-> "d", b |-> 0, g |-> 0, k |-> 1, st |-> "Running"]}
Events == IF Area = "who" THEN Who ELSE Where

\* what an op leaves to the present state: the bucket with the b-th lowest id, its g-th set, its k-th replica
RECURSIVE ById(_)
ById(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x.id <= y.id IN <<m>> \o ById(X \ {m})
Nth(q, k) == q[(k % Len(q)) + 1]
Resolve(S, e) ==
  IF e.op \notin {"delbk", "upset", "leader"} THEN e
  ELSE LET B == ById(InDb(S.bks, e.t, e.d)) IN
       IF B = <<>> THEN e @@ [id |-> 999, bid |-> 999, rs |-> 999, dv |-> <<>>, v |-> 998, node |-> 1]
       ELSE LET b == Nth(B, e.b)  g == Nth(b.sets, e.g)
                dv == IF e.op = "upset" THEN [k \in DOMAIN e.del |-> Nth(g.vn, e.del[k]).id] ELSE <<>>
                v == IF e.op = "leader" THEN Nth(g.vn, e.k) ELSE g.vn[1]
            IN e @@ [id |-> b.id, bid |-> b.id, rs |-> g.id, dv |-> dv, v |-> v.id, node |-> v.node]

RECURSIVE SortNodes(_)
SortNodes(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x.id <= y.id IN <<m.id>> \o SortNodes(X \ {m})
\* one bucket that NewBucket allows: sets one after the other, replicas round robin
Placed(S, e) ==
  LET db == The(DbOf(S, e.t, e.d))  w == IF db.r = 0 THEN 1 ELSE db.r
      N == SortNodes(Usable(S))  rg == RangeFor(S, e.t, e.d, e.ts)
      g(k) == LET base == S.hw + 1 + (k - 1) * (w + 1)
                  vn == [j \in 1..w |-> [id |-> base + j, node |-> Nth(N, (k - 1) * w + j - 1), st |-> "Running"]]
              IN [id |-> base, ln |-> vn[1].node, lv |-> vn[1].id, vn |-> vn]
  IN [t |-> e.t, d |-> e.d, id |-> S.hw, lo |-> rg[1], hi |-> rg[2], sets |-> [k \in 1..db.s |-> g(k)]]
Step(S, e) ==
  IF e.op # "mkbk" THEN Do(S, Resolve(S, e)).s
  ELSE IF Covering(S, e.t, e.d, e.ts) # {} \/ BucketErr(S, e) # "" THEN S
  ELSE LET b == Placed(S, e) IN [S EXCEPT !.bks = @ \cup {b}, !.hw = MaxOf(NewIds(b), 0) + 1]
Init == St = [Empty EXCEPT !.hw = 1] /\ ev = [op |-> "reset"]
Adds(e) == e.op = "upset" /\ e.add # <<>>
Next == \E e \in Events : (Adds(e) => \A b \in St.bks : 100 \notin NewIds(b)) /\ ev' = e /\ St' = Step(St, e)
Spec == Init /\ [][Next]_vars
Bound == St.hw <= MaxHw
View == St

Inv == Invariants(St)
\* the choice the model makes is one the specification allows
Allowed == \A e \in Events : e.op = "mkbk" /\ Covering(St, e.t, e.d, e.ts) = {} /\ BucketErr(St, e) = "" =>
             LET b == Placed(St, e)  S2 == Step(St, e)
             IN NewBucket(St, e.t, e.d, e.ts, b) /\ Cardinality(Covering(S2, e.t, e.d, e.ts)) = 1
\* rows that have a place keep it until the place is deleted; nobody keeps access to a tenant after being dropped
Stays == [][\A b \in St.bks : (\E c \in St'.bks : c.id = b.id /\ c.lo = b.lo /\ c.hi = b.hi) \/ ev'.op \in {"delbk", "dropdb", "upset"}]_vars
Gone == [][ev'.op = "dropuser" => \A m \in St'.mems : (Named(St'.tens, m.t) # {}) => \A u \in Named(St.users, ev'.n) : u.id # m.id]_vars
Emptied == [][ev'.op = "dropten" => OfT(St'.roles, "t1") = {} /\ \A m \in OfT(St'.mems, "t1") : ~\E u \in St'.users : u.id = m.id]_vars
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
=============================================================================
