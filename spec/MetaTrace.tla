----------------------------- MODULE MetaTrace -----------------------------
(* Two replicas of the state machine, and the answers of the first, against  *)
(* Meta.  Also the arithmetic of bucket ranges on 64-bit times.              *)
EXTENDS Meta, Json, IOUtils, Big
VARIABLES S, ver, l
tvars == <<S, ver, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
SetOf(q) == {q[k] : k \in DOMAIN q}
Same(q, X) == SetOf(q) = X /\ Len(q) = Cardinality(X)
RoleRec(r) == [t |-> r.t, n |-> r.n, sys |-> r.sys, pr |-> SetOf(r.pr)]
Roles(q) == {RoleRec(q[k]) : k \in DOMAIN q}
Shows(v, T) ==
  /\ Same(v.nodes, T.nodes) /\ Same(v.met, T.met) /\ Same(v.users, T.users) /\ Same(v.users2, T.users)
  /\ Same(v.ten0, T.tens) /\ Same(v.ten1, {x \in T.tens : ~x.h}) /\ Same(v.vis, {x \in T.tens : ~x.h})
  /\ Same(v.dbs, T.dbs) /\ Same(v.tabs, {x \in T.tabs : DbOf(T, x.t, x.d) # {}}) /\ Same(v.tabs2, T.tabs)
  /\ Same(v.bks, {x \in T.bks : DbOf(T, x.t, x.d) # {}})
  /\ SetOf(v.rsets) = UNION {SetsOf(b) : b \in T.bks}
  /\ Roles(v.roles) = T.roles /\ Len(v.roles) = Cardinality(T.roles) /\ Roles(v.roles2) = T.roles
  /\ Same(v.mems, T.mems) /\ Same(v.mems2, T.mems)
  /\ Same(v.memn, {[t |-> p[1].t, n |-> p[2].n, role |-> p[1].role] : p \in {q \in T.mems \X T.users : q[1].id = q[2].id}})
  /\ Same(v.infos, T.infos) /\ Same(v.infos2, T.infos)
  /\ Same(v.qs, {[id |-> x.id, node |-> x.node, own |-> x.node] : x \in T.qs})
  /\ v.mark = T.mark
Look(T) == /\ Shows(E.view, T) /\ E.same /\ ver' = E.view.ver /\ Invariants(T)

Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
TReset == Is("reset") /\ S' = Empty /\ Shows(E.view, Empty) /\ E.same /\ ver' = E.view.ver
TSnap == l <= Len(Trace) /\ E.op \in {"snap", "reopen"} /\ l' = l + 1 /\ UNCHANGED S /\ Look(S) /\ ver' = ver
TRetain == Is("retain") /\ E.res[1] = "ok" /\ E.res = E.resb /\ E.rid >= S.hw /\ S' = [S EXCEPT !.hw = E.rid + E.n] /\ Look(S')
TBk == Is("mkbk") /\ E.res = E.resb /\ E.data /\
  IF Covering(S, E.t, E.d, E.ts) # {} THEN E.res = <<"ok", "">> /\ S' = S /\ Look(S')
  ELSE IF BucketErr(S, E) # "" THEN E.res = <<"err", BucketErr(S, E)>> /\ S' = S /\ Look(S')
  ELSE /\ E.res = <<"ok", "">>
       /\ LET N == SetOf(E.view.bks) \ S.bks IN
          /\ Cardinality(N) = 1
          /\ NewBucket(S, E.t, E.d, E.ts, The(N))
          /\ S' = [S EXCEPT !.bks = @ \cup N, !.hw = MaxOf(NewIds(The(N)), 0) + 1]
       /\ Look(S') /\ ver' > ver
Plain == {"addnode", "metrics", "createdb", "alterdb", "hidedb", "dropdb", "mktab", "uptab", "droptab", "delbk", "mkuser", "altuser", "dropuser", "renuser",
          "mkten", "altten", "hideten", "renten", "dropten", "addmem", "rmmem", "chmem", "mkrole", "droprole", "grant", "revoke", "upset", "leader", "vnode",
          "res", "mark", "q", "rmq", "mvq", "lim"}
TPlain == l <= Len(Trace) /\ E.op \in Plain /\ l' = l + 1 /\
  LET r == Do(S, E) IN
  /\ E.res = r.res /\ E.resb = r.res /\ E.data
  /\ S' = r.s /\ Look(r.s)
  /\ ver' >= ver /\ ([r.s EXCEPT !.lims = {}, !.hw = 0] # [S EXCEPT !.lims = {}, !.hw = 0] => ver' > ver)

\* [lo, hi) holds ts, is as long as the bucket (cut at the ends of time) and lies on the grid
TRange == Is("range") /\ UNCHANGED <<S, ver>> /\
  LET lo == E.lo  hi == E.hi  len == E.dur
      ends == <<TRUE, I64MinMag>>  maxi == <<FALSE, I64Max>>
      IAdd(x, y) == IF x[1] = y[1] THEN <<x[1], BAdd(x[2], y[2])>> ELSE IF BLe(y[2], x[2]) THEN IntOf(x[1], BSub(x[2], y[2])) ELSE IntOf(y[1], BSub(y[2], x[2]))
      INeg(x) == IntOf(~x[1], x[2])
  IN IF len[1] \/ len[2] = <<>> THEN lo = ends /\ hi = maxi
     ELSE /\ ILe(lo, E.ts) /\ (ILt(E.ts, hi) \/ (hi = maxi /\ E.ts = maxi))
          /\ (IAdd(lo, len) = hi \/ (hi = maxi /\ ILt(maxi, IAdd(lo, len))) \/ (lo = ends /\ ILt(IAdd(hi, INeg(len)), ends)))
          \* aligned: with a small duration the start is a multiple
          /\ (Len(len[2]) = 1 => (lo # ends => BDivMod(lo[2], len[2][1]).r = 0) /\ (hi # maxi => BDivMod(hi[2], len[2][1]).r = 0))

TNext == TReset \/ TSnap \/ TRetain \/ TBk \/ TPlain \/ TRange
TInit == S = Empty /\ ver = 0 /\ l = 1
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
