------------------------------ MODULE MetaCli ------------------------------
(* Clients of the metadata.  T is what the cluster has committed, S what the  *)
(* meta node that serves the clients has applied.  However its answers are    *)
(* delayed and whatever it forgets over a restart, a client at rest shows S.  *)
EXTENDS Meta, Access, Json, IOUtils
VARIABLES S, T, l
tvars == <<S, T, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
SetOf(q) == {q[k] : k \in DOMAIN q}
Same(q, X) == SetOf(q) = X /\ Len(q) = Cardinality(X)
UserNames == {"u", "u2", "ü"}
Probes(id) == <<<<"root", P("root", 0, "", "")>>, <<"ten", P("ten", id, "", "")>>, <<"sys", P("sys", id, "", "")>>, <<"mem", P("mem", id, "", "")>>, <<"role", P("role", id, "", "")>>,
  <<"d/r", P("db", id, "d", "r")>>, <<"d/w", P("db", id, "d", "w")>>, <<"d/a", P("db", id, "d", "a")>>,
  <<"d1/r", P("db", id, "d1", "r")>>, <<"d1/w", P("db", id, "d1", "w")>>, <<"d1/a", P("db", id, "d1", "a")>>>>
Can(H, id) == {Probes(id)[k][1] : k \in {k \in 1..11 : Allows(H, Probes(id)[k][2])}}
\* what a user holds in a tenant under a role
Held(Z, t, id, role) ==
  IF role = "s:owner" THEN OfSys("owner", id) ELSE IF role = "s:member" THEN OfSys("member", id)
  ELSE UNION {OfCustom(r.sys, r.pr, id) : r \in {r \in OfT(Z.roles, t) : "c:" \o r.n = role}}
WhoOk(Z, ten, w) ==
  IF Named(Z.users, w.n) = {} THEN w.st = "nouser"
  ELSE LET u == The(Named(Z.users, w.n)) IN
       IF u.adm = "y" THEN w.st = "ok" /\ w.role = "-" /\ SetOf(w.can) = Can(Admin, ten.id)
       ELSE IF MemOf(Z, ten.n, u.id) = {} THEN w.st = "nomem"
       ELSE LET m == The(MemOf(Z, ten.n, u.id)) IN
            w.st = "ok" /\ w.role = m.role /\ SetOf(w.can) = Can(Held(Z, ten.n, ten.id, m.role), ten.id)
DataOk(Z, v) ==
  IF Named(Z.tens, v.t) = {} THEN ~v.on
  ELSE LET ten == The(Named(Z.tens, v.t)) IN
       IF ten.h THEN ~v.on \/ v.h
       ELSE /\ v.on /\ ~v.h /\ v.c = ten.c /\ v.id = ten.id
            /\ Same(v.dbs, OfT(Z.dbs, v.t)) /\ Same(v.tabs, OfT(Z.tabs, v.t)) /\ Same(v.bks, OfT(Z.bks, v.t))
            /\ {v.who[k].n : k \in DOMAIN v.who} = UserNames
            /\ \A k \in DOMAIN v.who : WhoOk(Z, ten, v.who[k])
Views(Z) == \A k \in DOMAIN E.cl : Same(E.cl[k].nodes, Z.nodes) /\ \A j \in DOMAIN E.cl[k].ten : DataOk(Z, E.cl[k].ten[j])
Lag == "lag" \in DOMAIN E /\ E.lag
Via == "c" \in DOMAIN E /\ "own" \in DOMAIN E
Own(Z) == Via => \A k \in DOMAIN E.own : DataOk(Z, E.own[k])
Behind == [T EXCEPT !.lims = {}] # [S EXCEPT !.lims = {}]

Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TReset == Is("reset") /\ S' = Empty /\ T' = Empty
TQuiet == l <= Len(Trace) /\ E.op \in {"gate", "hold", "release", "ask", "step", "open", "restart"} /\ l' = l + 1 /\ UNCHANGED <<S, T>> /\ Views(S)
\* many reports of node 1
TFlood == Is("flood") /\ LET m(Z) == [Z EXCEPT !.met = {y \in @ : y.id # 1} \cup {[id |-> 1, free |-> 5, ok |-> TRUE]}] IN S' = m(S) /\ T' = m(T) /\ Views(S')
TUse == Is("use") /\ UNCHANGED <<S, T>> /\ Views(S) /\ (Named(S.tens, E.t) = {} => ~E.on) /\ ({x \in Named(S.tens, E.t) : ~x.h} # {} => E.on)
TRestore == Is("restore") /\ S' = T /\ UNCHANGED T /\ Views(T)
\* a command reaches the cluster; the serving node applies it now, or later with a snapshot
Step(Z, res) == /\ T' = Z /\ (IF Lag THEN S' = S /\ Views(S) ELSE ~Behind /\ S' = Z /\ Views(Z) /\ Own(Z)) /\ E.resb = res /\ (~Lag => E.res = res)
TRetain == Is("retain") /\ E.rid >= T.hw /\ Step([T EXCEPT !.hw = E.rid + E.n], E.resb) /\ E.resb[1] = "ok"
TBk == Is("mkbk") /\
  IF Covering(T, E.t, E.d, E.ts) # {} THEN Step(T, <<"ok", "">>)
  ELSE IF BucketErr(T, E) # "" THEN Step(T, <<"err", BucketErr(T, E)>>)
  ELSE LET N == SetOf(E.bks) \ T.bks IN
       /\ Cardinality(N) = 1 /\ NewBucket(T, E.t, E.d, E.ts, The(N))
       /\ Step([T EXCEPT !.bks = @ \cup N, !.hw = MaxOf(NewIds(The(N)), 0) + 1], <<"ok", "">>)
Plain == {"addnode", "metrics", "createdb", "alterdb", "hidedb", "dropdb", "mktab", "uptab", "droptab", "delbk", "mkuser", "altuser", "dropuser",
          "mkten", "altten", "hideten", "dropten", "addmem", "rmmem", "chmem", "mkrole", "droprole", "grant", "revoke", "upset", "leader", "vnode"}
TPlain == l <= Len(Trace) /\ E.op \in Plain /\ l' = l + 1 /\ LET r == Do(T, E) IN Step(r.s, r.res)
TNext == TReset \/ TQuiet \/ TFlood \/ TUse \/ TRestore \/ TRetain \/ TBk \/ TPlain
TInit == S = Empty /\ T = Empty /\ l = 1
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
