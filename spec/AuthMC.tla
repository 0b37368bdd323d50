------------------------------- MODULE AuthMC -------------------------------
\* every role over two databases, every cache of two out of three; and what holds of privileges at large
EXTENDS Auth, Json
CONSTANTS What
VARIABLE ev
mvars == <<avars, ev>>
Ks == {"k1", "k2", "k3"}
E(k, v) == [k |-> k, v |-> v]
MCInit == Init /\ ev = [op |-> "reset"]
MCNext ==
  \/ /\ What = "role"
     /\ \/ \E s \in {"", "member", "owner"} : role' = [sys |-> s, pr |-> {}] /\ UNCHANGED <<opts, cache, cap>> /\ ev' = [op |-> "role", sys |-> s, pr |-> <<>>]
        \/ \E d \in {"a", "b"}, p \in {"r", "w", "a"} :
           \/ Grant(d, p) /\ ev' = [op |-> "grant", d |-> d, p |-> p]
           \/ (IF CanRevoke(d, p) THEN Revoke(d, p) ELSE UNCHANGED avars) /\ ev' = [op |-> "revoke", d |-> d, p |-> p]
  \/ /\ What = "cache"
     /\ \/ \E k \in Ks, v \in {"x", "y"} : Put(k, E(k, v)) /\ ev' = [op |-> "put", k |-> k, v |-> v]
        \/ \E k \in Ks : Touch(k) /\ ev' = [op |-> "get", k |-> k]
        \/ \E k \in Ks : Drop(k) /\ ev' = [op |-> "rm", k |-> k]
        \/ Clear /\ ev' = [op |-> "clear"]
        \/ UNCHANGED avars /\ ev' = [op |-> "iter"]
MCSpec == MCInit /\ [][MCNext]_mvars
St == [role |-> role, cache |-> cache]
View == St
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> [role |-> role', cache |-> cache']]))
\* at most cap sign-ins, each key once
CacheOk == Len(cache) <= cap /\ \A m, n \in DOMAIN cache : cache[m].k = cache[n].k => m = n
RoleOk == \A p, q \in role.pr : p[1] = q[1] => p = q

Tens == 1..2
Ids == 0..2
Dbs == {"*", "a", "b"}
Lv == {"r", "w", "a"}
All == {P("root", 0, "", "")} \cup {P(k, t, "", "") : k \in {"ten", "user", "sys", "mem", "role"}, t \in Ids} \cup {P("db", t, d, p) : t \in Ids, d \in Dbs, p \in Lv}
ASSUME \A p \in All : Covers(p, p)
ASSUME \A p, q \in All : Covers(p, q) /\ Covers(q, p) => p = q
ASSUME \A p, q, r \in All : Covers(p, q) /\ Covers(q, r) => Covers(p, r)
\* what a role in one tenant allows, it allows in that tenant only
OneTenant(H, t) == \A w \in All : Allows(H, w) => w.t = t
ASSUME \A t \in Tens, s \in {"owner", "member", ""}, d \in {"a", "b"}, p \in Lv : OneTenant(OfCustom(s, {<<d, p>>}, t), t)
\* a member reads, and only reads; an owner may do all there is in the tenant; an admin all there is
ASSUME \A t \in Tens : \A w \in All : Allows(OfSys("member", t), w) <=> (w.k = "db" /\ w.t = t /\ w.p = "r")
ASSUME \A t \in Tens : \A w \in All : Allows(OfSys("owner", t), w) <=> (w.t = t /\ w.k \notin {"root", "user"})
ASSUME \A w \in All : Allows(Admin, w)
\* one's own account is all that being signed in without a role gives
ASSUME \A i \in Tens : \A w \in All : Allows({Self(i)}, w) <=> w = P("user", i, "", "")
\* a set key shuts out every password
ASSUME \A pw \in {<<>>, <<"p">>, <<"?">>}, i \in {"p", "q"} : "ok" \notin Login([NoOpts EXCEPT !.pw = pw, !.rsa = <<"k1">>], [key |-> <<>>, kid |-> "", kpw |-> "", password |-> i])
=============================================================================
