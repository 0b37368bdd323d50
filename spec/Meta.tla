-------------------------------- MODULE Meta --------------------------------
(* The metadata a cluster agrees on: data nodes and their health, tenants,   *)
(* users, roles, members, databases, tables, the buckets of time and the     *)
(* replication sets in them, delayed jobs, running queries and quotas.       *)
(* `Do(S, e)` is the one successor of state S under command e together with  *)
(* the answer; creating a bucket is the only command with a choice, which    *)
(* `NewBucket` constrains.  Times are in hours.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [nodes |-> {}, met |-> {}, users |-> {}, tens |-> {}, dbs |-> {}, tabs |-> {}, bks |-> {}, roles |-> {}, mems |-> {},
          infos |-> {}, qs |-> {}, lims |-> {}, mark |-> [nid |-> 0, lock |-> FALSE], hw |-> 0]
Ok(S) == [s |-> S, res |-> <<"ok", "">>]
OkV(S, v) == [s |-> S, res |-> <<"ok", v>>]
Err(S, n) == [s |-> S, res |-> <<"err", n>>]

Alive(n) == n.addr \in {"a1", "a2", "a3", "a4"}
Healthy(S) == {n \in S.nodes : \E m \in S.met : m.id = n.id /\ m.ok}
Named(X, n) == {x \in X : x.n = n}
OfT(X, t) == {x \in X : x.t = t}
DbOf(S, t, d) == {x \in S.dbs : x.t = t /\ x.d = d}
InDb(X, t, d) == {x \in X : x.t = t /\ x.d = d}
TabOf(S, t, d, n) == {x \in S.tabs : x.t = t /\ x.d = d /\ x.n = n}
RoleOf(S, t, n) == {x \in S.roles : x.t = t /\ x.n = n}
MemOf(S, t, id) == {x \in S.mems : x.t = t /\ x.id = id}
The(X) == CHOOSE x \in X : TRUE
SysRoles == {"s:owner", "s:member"}
RoleExists(S, t, role) == role \in SysRoles \/ \E r \in OfT(S.roles, t) : role = "c:" \o r.n
DbRec(e, prec, h) == [t |-> e.t, d |-> e.d, s |-> e.s, r |-> e.r, dur |-> e.dur, ttl |-> e.ttl, prec |-> prec, h |-> h]
TenRec(n, id, e, h) == [n |-> n, id |-> id, c |-> e.c, h |-> h, lim |-> e.lim]
WithLim(S, n, lim) == [S EXCEPT !.lims = {x \in @ : x.n # n} \cup (IF lim < 0 THEN {} ELSE {[n |-> n, bal |-> lim]})]

\* privileges of a role, one per database: a later grant replaces an earlier one
RECURSIVE Granted(_, _), Revoked(_, _)
Granted(pr, q) == IF q = <<>> THEN pr ELSE Granted({p \in pr : p[1] # q[1][1]} \cup {q[1]}, Tail(q))
Revocable(pr, q) == \A k \in DOMAIN q : q[k] \in pr /\ \A j \in 1..(k - 1) : q[j][1] # q[k][1]
Revoked(pr, q) == pr \ {q[k] : k \in DOMAIN q}
PrSet(q) == {q[k] : k \in DOMAIN q}

MarkOk(S, nid, lock) == ~(lock /\ S.mark.lock) /\ ~(~lock /\ S.mark.nid # nid)
SetMark(S, nid, lock) == IF MarkOk(S, nid, lock) THEN [S EXCEPT !.mark = [nid |-> nid, lock |-> lock]] ELSE S

CheckDb(S, e) == IF e.r > Cardinality(Healthy(S)) THEN "ValidNodeNotEnough" ELSE IF e.s = 0 THEN "DatabaseSchemaInvalid" ELSE ""

\* the buckets of a database with one replication set changed
SetsOf(b) == {b.sets[k].id : k \in DOMAIN b.sets}
RECURSIVE KeepSeq(_, _)
KeepSeq(q, ids) == IF q = <<>> THEN <<>> ELSE (IF q[1].id \in ids THEN <<q[1]>> ELSE <<>>) \o KeepSeq(Tail(q), ids)
NewVn(q) == [k \in DOMAIN q |-> [id |-> q[k][1], node |-> q[k][2], st |-> "Running"]]
IdsIn(vn) == {vn[k].id : k \in DOMAIN vn}
Relead(g) == IF g.vn = <<>> \/ g.lv \in IdsIn(g.vn) THEN g ELSE [g EXCEPT !.lv = g.vn[1].id, !.ln = g.vn[1].node]
ReplSet(b, rs, dv, add) ==
  LET changed == [k \in DOMAIN b.sets |-> IF b.sets[k].id # rs THEN b.sets[k]
                    ELSE Relead([b.sets[k] EXCEPT !.vn = KeepSeq(@, IdsIn(@) \ dv) \o NewVn(add)])]
      full == {changed[k].id : k \in {k \in DOMAIN changed : changed[k].vn # <<>>}}
  IN [b EXCEPT !.sets = KeepSeq(changed, full)]
BkOf(S, e) == {x \in S.bks : x.t = e.t /\ x.d = e.d /\ x.id = e.bid}

Do(S, e) ==
  CASE e.op = "addnode" ->
         IF \E n \in S.nodes : n.id # e.id /\ n.addr = e.addr THEN Err(S, "DataNodeExist")
         ELSE Ok(SetMark([S EXCEPT !.nodes = {n \in @ : n.id # e.id} \cup {[id |-> e.id, addr |-> e.addr]}], e.id, TRUE))
    [] e.op = "metrics" -> Ok([S EXCEPT !.met = {m \in @ : m.id # e.id} \cup {[id |-> e.id, free |-> e.free, ok |-> e.st = "ok"]}])
    [] e.op = "createdb" ->
         IF DbOf(S, e.t, e.d) # {} THEN Err(S, "DatabaseAlreadyExists")
         ELSE IF CheckDb(S, e) # "" THEN Err(S, CheckDb(S, e))
         ELSE Ok([S EXCEPT !.dbs = @ \cup {DbRec(e, e.prec, FALSE)}])
    [] e.op = "alterdb" ->
         IF DbOf(S, e.t, e.d) = {} THEN Err(S, "DatabaseNotFound")
         ELSE IF CheckDb(S, e) # "" THEN Err(S, CheckDb(S, e))
         ELSE LET o == The(DbOf(S, e.t, e.d)) IN Ok([S EXCEPT !.dbs = (@ \ {o}) \cup {DbRec(e, o.prec, FALSE)}])
    [] e.op = "hidedb" ->
         IF DbOf(S, e.t, e.d) = {} THEN Err(S, "DatabaseNotFound")
         ELSE LET o == The(DbOf(S, e.t, e.d)) IN Ok([S EXCEPT !.dbs = (@ \ {o}) \cup {[o EXCEPT !.h = e.h]}])
    [] e.op = "dropdb" -> Ok([S EXCEPT !.dbs = @ \ DbOf(S, e.t, e.d), !.bks = @ \ InDb(S.bks, e.t, e.d), !.tabs = @ \ InDb(S.tabs, e.t, e.d)])
    [] e.op = "mktab" ->
         IF DbOf(S, e.t, e.d) = {} THEN Err(S, "DatabaseNotFound")
         ELSE IF TabOf(S, e.t, e.d, e.n) # {} THEN Err(S, "TableAlreadyExists")
         ELSE Ok([S EXCEPT !.tabs = @ \cup {[t |-> e.t, d |-> e.d, n |-> e.n, ver |-> e.ver, cols |-> e.cols]}])
    [] e.op = "uptab" ->
         IF TabOf(S, e.t, e.d, e.n) = {} THEN Err(S, "TableNotFound")
         ELSE LET o == The(TabOf(S, e.t, e.d, e.n)) IN
              IF o.ver + 1 # e.ver THEN Err(S, "UpdateTableConflict")
              ELSE Ok([S EXCEPT !.tabs = (@ \ {o}) \cup {[o EXCEPT !.ver = e.ver, !.cols = e.cols]}])
    [] e.op = "droptab" ->
         IF TabOf(S, e.t, e.d, e.n) = {} THEN Err(S, "TableNotFound") ELSE Ok([S EXCEPT !.tabs = @ \ TabOf(S, e.t, e.d, e.n)])
    [] e.op = "delbk" -> Ok([S EXCEPT !.bks = {x \in @ : ~(x.t = e.t /\ x.d = e.d /\ x.id = e.id)}])
    [] e.op = "mkuser" ->
         IF Named(S.users, e.n) # {} THEN Err(S, "UserAlreadyExists")
         ELSE Ok([S EXCEPT !.users = @ \cup {[n |-> e.n, id |-> e.id, c |-> e.c, adm |-> e.adm]}])
    [] e.op = "altuser" ->
         IF Named(S.users, e.n) = {} THEN Err(S, "UserNotFound")
         ELSE LET o == The(Named(S.users, e.n)) IN
              Ok([S EXCEPT !.users = (@ \ {o}) \cup {[o EXCEPT !.c = IF e.c = "-" THEN @ ELSE e.c, !.adm = IF e.adm = "-" THEN @ ELSE e.adm]}])
    [] e.op = "dropuser" ->
         IF Named(S.users, e.n) = {} THEN OkV(S, "false")
         ELSE LET o == The(Named(S.users, e.n)) IN
              OkV([S EXCEPT !.users = @ \ {o}, !.mems = {m \in @ : m.id # o.id \/ Named(S.tens, m.t) = {}}], "true")
    [] e.op \in {"renuser", "renten"} -> Err(S, "NotSupport")
    [] e.op = "mkten" ->
         IF Named(S.tens, e.n) # {} THEN Err(S, "TenantAlreadyExists")
         ELSE Ok(WithLim([S EXCEPT !.tens = @ \cup {TenRec(e.n, e.id, e, FALSE)}], e.n, e.lim))
    [] e.op = "altten" ->
         IF {x \in Named(S.tens, e.n) : ~x.h} = {} THEN Err(S, "TenantNotFound")
         ELSE LET o == The(Named(S.tens, e.n)) IN
              Ok(WithLim([S EXCEPT !.tens = (@ \ {o}) \cup {TenRec(e.n, o.id, e, FALSE)}], e.n, e.lim))
    [] e.op = "hideten" ->
         IF Named(S.tens, e.n) = {} THEN Err(S, "TenantNotFound")
         ELSE LET o == The(Named(S.tens, e.n)) IN
              Ok(WithLim([S EXCEPT !.tens = (@ \ {o}) \cup {[o EXCEPT !.h = e.h]}], e.n, o.lim))
    [] e.op = "dropten" ->
         Ok(WithLim([S EXCEPT !.tens = @ \ Named(S.tens, e.n), !.mems = {m \in @ : m.t # e.n \/ ~\E u \in S.users : u.id = m.id}, !.roles = @ \ OfT(S.roles, e.n)], e.n, -1))
    [] e.op = "addmem" ->
         IF MemOf(S, e.t, e.id) # {} THEN Err(S, "UserAlreadyExists")
         ELSE IF ~RoleExists(S, e.t, e.role) THEN Err(S, "RoleNotFound")
         ELSE Ok([S EXCEPT !.mems = @ \cup {[t |-> e.t, id |-> e.id, role |-> e.role]}])
    [] e.op = "rmmem" ->
         IF MemOf(S, e.t, e.id) = {} THEN Err(S, "UserNotFound") ELSE Ok([S EXCEPT !.mems = @ \ MemOf(S, e.t, e.id)])
    [] e.op = "chmem" ->
         IF MemOf(S, e.t, e.id) = {} THEN Err(S, "UserNotFound")
         ELSE IF ~RoleExists(S, e.t, e.role) THEN Err(S, "RoleNotFound")
         ELSE Ok([S EXCEPT !.mems = (@ \ MemOf(S, e.t, e.id)) \cup {[t |-> e.t, id |-> e.id, role |-> e.role]}])
    [] e.op = "mkrole" ->
         IF RoleOf(S, e.t, e.n) # {} THEN Err(S, "RoleAlreadyExists")
         ELSE Ok([S EXCEPT !.roles = @ \cup {[t |-> e.t, n |-> e.n, sys |-> e.sys, pr |-> Granted({}, e.pr)]}])
    [] e.op = "droprole" ->
         IF RoleOf(S, e.t, e.n) = {} THEN Err(S, "RoleNotFound") ELSE OkV([S EXCEPT !.roles = @ \ RoleOf(S, e.t, e.n)], "true")
    [] e.op = "grant" ->
         IF RoleOf(S, e.t, e.n) = {} THEN Err(S, "RoleNotFound")
         ELSE IF \E k \in DOMAIN e.pr : DbOf(S, e.t, e.pr[k][1]) = {} THEN Err(S, "DatabaseNotFound")
         ELSE LET o == The(RoleOf(S, e.t, e.n)) IN Ok([S EXCEPT !.roles = (@ \ {o}) \cup {[o EXCEPT !.pr = Granted(@, e.pr)]}])
    [] e.op = "revoke" ->
         IF RoleOf(S, e.t, e.n) = {} THEN Err(S, "RoleNotFound")
         ELSE LET o == The(RoleOf(S, e.t, e.n)) IN
              IF ~Revocable(o.pr, e.pr) THEN Err(S, "PrivilegeCannotRevoke")
              ELSE Ok([S EXCEPT !.roles = (@ \ {o}) \cup {[o EXCEPT !.pr = Revoked(@, e.pr)]}])
    [] e.op = "upset" ->
         IF BkOf(S, e) = {} THEN Err(S, "BucketNotFound")
         ELSE LET o == The(BkOf(S, e))
                  n == ReplSet(o, e.rs, {e.dv[k] : k \in DOMAIN e.dv}, e.add)
              IN Ok([S EXCEPT !.bks = (@ \ {o}) \cup (IF n.sets = <<>> THEN {} ELSE {n})])
    [] e.op = "leader" ->
         IF BkOf(S, e) = {} THEN Err(S, "BucketNotFound")
         ELSE LET o == The(BkOf(S, e)) IN
              Ok([S EXCEPT !.bks = (@ \ {o}) \cup {[o EXCEPT !.sets = [k \in DOMAIN @ |-> IF @[k].id = e.rs THEN [@[k] EXCEPT !.ln = e.node, !.lv = e.v] ELSE @[k]] \o <<>>]}])
    [] e.op = "vnode" ->
         IF BkOf(S, e) = {} THEN Err(S, "BucketNotFound")
         ELSE LET o == The(BkOf(S, e)) IN
              Ok([S EXCEPT !.bks = (@ \ {o}) \cup {[o EXCEPT !.sets = [k \in DOMAIN @ |-> IF @[k].id = e.rs
                    THEN [@[k] EXCEPT !.vn = [j \in DOMAIN @ |-> IF @[j].id = e.v THEN [@[j] EXCEPT !.st = e.st] ELSE @[j]] \o <<>>] ELSE @[k]] \o <<>>]}])
    [] e.op = "res" -> Ok([S EXCEPT !.infos = {x \in @ : x.n # e.n} \cup {[n |-> e.n, nid |-> e.nid, st |-> e.st]}])
    [] e.op = "mark" -> IF MarkOk(S, e.nid, e.lock) THEN Ok(SetMark(S, e.nid, e.lock)) ELSE Err(S, "ResourceInfosMarkIsLock")
    [] e.op = "q" -> Ok([S EXCEPT !.qs = {x \in @ : x.id # e.id} \cup {[id |-> e.id, node |-> e.node]}])
    [] e.op = "rmq" -> Ok([S EXCEPT !.qs = {x \in @ : x.id # e.id}])
    [] e.op = "mvq" -> Ok([S EXCEPT !.qs = {IF x.node = e.a THEN [x EXCEPT !.node = e.z] ELSE x : x \in @}])
    [] e.op = "lim" ->
         IF {x \in S.lims : x.n = e.t} = {} THEN OkV(S, ToString(e.max) \o "/-1")
         ELSE LET o == The({x \in S.lims : x.n = e.t})
                  a == IF e.max < o.bal THEN e.max ELSE o.bal
              IN OkV([S EXCEPT !.lims = (@ \ {o}) \cup {[o EXCEPT !.bal = @ - a]}], ToString(a) \o "/" \o ToString(o.bal - a))

--------------------------------------------------------------------------------
\* Placement
MaxH == 2000000
FloorTo(ts, dur) == (ts \div dur) * dur       \* TLA+ \div rounds towards minus infinity
Aligned(ts, dur) == IF dur = 0 THEN IF ts >= 0 THEN <<0, MaxH>> ELSE <<-MaxH, 0>> ELSE <<FloorTo(ts, dur), FloorTo(ts, dur) + dur>>
MaxOf(X, dflt) == IF X = {} THEN dflt ELSE CHOOSE x \in X : \A y \in X : y <= x
MinOf(X, dflt) == IF X = {} THEN dflt ELSE CHOOSE x \in X : \A y \in X : x <= y
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* the aligned range, cut back to the gap between the buckets that are there already
RangeFor(S, t, d, ts) ==
  LET a == Aligned(ts, The(DbOf(S, t, d)).dur)
      B == InDb(S.bks, t, d)
  IN <<Max2(a[1], MaxOf({b.hi : b \in {b \in B : b.hi <= ts}}, -MaxH)), Min2(a[2], MinOf({b.lo : b \in {b \in B : b.lo > ts}}, MaxH))>>
Covering(S, t, d, ts) == {b \in InDb(S.bks, t, d) : b.lo <= ts /\ ts < b.hi}
Usable(S) == {n \in Healthy(S) : Alive(n)}
VnIds(b) == UNION {{<<k, j>> : j \in DOMAIN b.sets[k].vn} : k \in DOMAIN b.sets}
NewIds(b) == {b.id} \cup SetsOf(b) \cup {b.sets[p[1]].vn[p[2]].id : p \in VnIds(b)}
Distinct(b) == Cardinality(NewIds(b)) = 1 + Len(b.sets) + Cardinality(VnIds(b))
NewBucket(S, t, d, ts, b) ==
  LET db == The(DbOf(S, t, d))
      want == IF db.r = 0 THEN 1 ELSE db.r
  IN /\ b.t = t /\ b.d = d /\ <<b.lo, b.hi>> = RangeFor(S, t, d, ts)
     /\ Len(b.sets) = db.s
     /\ \A k \in DOMAIN b.sets :
          LET g == b.sets[k] IN
          /\ Len(g.vn) = want
          /\ Cardinality({g.vn[j].node : j \in DOMAIN g.vn}) = want            \* one replica per node
          /\ \A j \in DOMAIN g.vn : g.vn[j].st = "Running" /\ \E n \in Usable(S) : n.id = g.vn[j].node
          /\ \E j \in DOMAIN g.vn : g.vn[j].id = g.lv /\ g.vn[j].node = g.ln     \* led by one of its own
     /\ Distinct(b) /\ \A i \in NewIds(b) : i >= S.hw
Far == 1000000   \* hours after 1970 that have not passed
BucketErr(S, e) ==
  IF DbOf(S, e.t, e.d) = {} THEN "DatabaseNotFound"
  ELSE LET db == The(DbOf(S, e.t, e.d)) IN
       IF Max2(db.r, 1) > Cardinality(Usable(S)) THEN "ValidNodeNotEnough"
       ELSE IF db.s = 0 THEN "DatabaseSchemaInvalid"
       ELSE IF db.ttl # 0 /\ e.ts < Far THEN "NotSupport" ELSE ""

--------------------------------------------------------------------------------
\* What holds in every state
NoOverlap(S) == \A a, b \in S.bks : a # b /\ a.t = b.t /\ a.d = b.d => (a.hi <= b.lo \/ b.hi <= a.lo)
AllBkIds(S) == UNION {NewIds(b) : b \in S.bks}
FreshIds(S) == \A a, b \in S.bks : a # b => NewIds(a) \cap NewIds(b) = {}
LeadersIn(S) == \A b \in S.bks : \A k \in DOMAIN b.sets : b.sets[k].vn # <<>> /\ \E j \in DOMAIN b.sets[k].vn : b.sets[k].vn[j].id = b.sets[k].lv
InDbs(S) == (\A x \in S.tabs \cup {} : DbOf(S, x.t, x.d) # {}) /\ (\A x \in S.bks : DbOf(S, x.t, x.d) # {})
MembersLive(S) == \A m \in S.mems : Named(S.tens, m.t) # {}
UsersOfMembers(S) == \A m \in S.mems : \E u \in S.users : u.id = m.id
Keys(S) == /\ \A a, b \in S.users : a.n = b.n => a = b
           /\ \A a, b \in S.nodes : (a.id = b.id \/ a.addr = b.addr) => a = b
           /\ \A a, b \in S.tabs : a.t = b.t /\ a.d = b.d /\ a.n = b.n => a = b
           /\ \A a, b \in S.mems : a.t = b.t /\ a.id = b.id => a = b
           /\ \A a \in S.roles : \A p, q \in a.pr : p[1] = q[1] => p = q
Invariants(S) == NoOverlap(S) /\ FreshIds(S) /\ LeadersIn(S) /\ Keys(S)
=============================================================================
