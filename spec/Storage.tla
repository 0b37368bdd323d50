------------------------------ MODULE Storage ------------------------------
\* What one vnode of the storage engine promises its users: a set of rows per table,
\* changed only by the committed commands of its raft log.  Flushing, compacting,
\* purging the log, restarting, crashing: none of them is visible.
\*
\* A row is [tb, tags, t, f]: table, tag values, timestamp (an index into the
\* timestamps of the case), field values.  Values are opaque tokens; "-" is null.
EXTENDS Naturals, Sequences, FiniteSets, TLC

Null == "-"
NF == 5                                   \* fields f1..f5
NG == 2                                   \* tags g1, g2
FName == <<"f1", "f2", "f3", "f4", "f5">>
GName == <<"g1", "g2">>
NoRow == [k \in 1..NF |-> Null]

VARIABLES rows,    \* set of rows, at most one per (tb, tags, t)
          cols,    \* set of <<table, column>> in the schema
          pend,    \* the last command of the log while it is not applied: [] or its result
          saved    \* snapshots: [] or [rows] content at that time
vars == <<rows, cols, pend, saved>>

Key(r) == <<r.tb, r.tags, r.t>>
Tables == {c[1] : c \in cols}
HasTable(tb) == tb \in Tables
HasCol(tb, c) == <<tb, c>> \in cols

\* --- commands as functions on [r |-> rows, c |-> cols] --------------------------
Merge(old, new) == [k \in 1..NF |-> IF new[k] = Null THEN old[k] ELSE new[k]] \o <<>>

PutRow(R, w) ==
  LET same == {r \in R : Key(r) = Key(w)}
  IN IF same = {} THEN R \cup {w}
     ELSE LET o == CHOOSE r \in same : TRUE IN (R \ same) \cup {[w EXCEPT !.f = Merge(o.f, w.f)]}

RECURSIVE PutRows(_, _)
PutRows(R, ws) == IF ws = <<>> THEN R ELSE PutRows(PutRow(R, Head(ws)), Tail(ws))

\* a batch adds the tables and columns it mentions
ColsOf(w) == {<<w.tb, "time">>} \cup {<<w.tb, GName[k]>> : k \in {k \in 1..NG : w.tags[k] # Null}}
                                \cup {<<w.tb, FName[k]>> : k \in {k \in 1..NF : w.f[k] # Null}}
WriteF(S, ws) == [r |-> PutRows(S.r, ws), c |-> S.c \cup UNION {ColsOf(ws[k]) : k \in DOMAIN ws}]

\* --- filters: three-valued, over tags, time and fields ---------------------------
\* order of the values used in comparisons with < and >
Order == <<"b:false", "b:true", "i:-3", "i:-2", "i:-1", "i:0", "i:1", "i:2", "i:3", "i:4", "i:5", "i:6", "i:7", "i:8", "i:9",
           "u:0", "u:1", "u:2", "u:3", "u:4", "u:5", "u:6", "u:7", "u:8", "u:9",
           "f:-2.5", "f:-1.5", "f:0.5", "f:1.5", "f:2.5", "f:3.5", "f:4.5",
           "s:", "s:a", "s:ab", "s:b", "s:c", "s:d", "s:m", "s:x", "s:y", "s:z">>
Rank(v) == CHOOSE k \in DOMAIN Order : Order[k] = v
T3 == 1  F3 == 0  U3 == 2
B3(b) == IF b THEN T3 ELSE F3
And3(a, b) == IF a = F3 \/ b = F3 THEN F3 ELSE IF a = U3 \/ b = U3 THEN U3 ELSE T3
Or3(a, b) == IF a = T3 \/ b = T3 THEN T3 ELSE IF a = U3 \/ b = U3 THEN U3 ELSE F3
Not3(a) == IF a = U3 THEN U3 ELSE 1 - a
IdxOf(seq, x) == CHOOSE k \in DOMAIN seq : seq[k] = x
Val(r, c) == IF \E k \in 1..NG : GName[k] = c
             THEN LET v == r.tags[IdxOf(GName, c)] IN (IF v = Null THEN Null ELSE "s:" \o v)
             ELSE r.f[IdxOf(FName, c)]
Cmp3(o, x, y) == B3(CASE o = "=" -> x = y [] o = "!=" -> x # y [] o = "<" -> x < y
                      [] o = "<=" -> x <= y [] o = ">" -> x > y [] o = ">=" -> x >= y)
RECURSIVE Eval(_, _)
Eval(e, r) ==
  CASE e.k = "and" -> And3(Eval(e.l, r), Eval(e.r, r))
    [] e.k = "or" -> Or3(Eval(e.l, r), Eval(e.r, r))
    [] e.k = "not" -> Not3(Eval(e.l, r))
    [] e.k = "null" -> B3(e.c # "time" /\ Val(r, e.c) = Null)
    [] e.k = "cmp" -> IF e.c = "time" THEN Cmp3(e.o, r.t, e.v)
                      ELSE LET v == Val(r, e.c) IN
                           IF v = Null \/ e.v = Null THEN U3
                           ELSE IF e.o = "=" THEN B3(v = e.v) ELSE IF e.o = "!=" THEN B3(v # e.v)
                           ELSE Cmp3(e.o, Rank(v), Rank(e.v))
    [] e.k = "in" -> IF e.c = "time" THEN B3((\E k \in DOMAIN e.v : e.v[k] = r.t) # e.neg)
                     ELSE LET v == Val(r, e.c) IN
                          IF v = Null THEN U3 ELSE B3((\E k \in DOMAIN e.v : e.v[k] = v) # e.neg)
    [] e.k = "const" -> B3(e.v)
    [] e.k = "all" -> T3
Matches(e, r) == Eval(e, r) = T3

DeleteF(S, tb, e) == [S EXCEPT !.r = {r \in @ : ~(r.tb = tb /\ Matches(e, r))}]

\* tags of the matched series are set; "=" leaves a tag alone
NewTags(tags, set) == [k \in 1..NG |-> IF set[k] = "=" THEN tags[k] ELSE set[k]] \o <<>>
RetagF(S, tb, series, set) ==
  [S EXCEPT !.r = {IF r.tb = tb /\ r.tags \in series THEN [r EXCEPT !.tags = NewTags(r.tags, set)] ELSE r : r \in @}]

DropColF(S, tb, c) ==
  [r |-> IF \E k \in 1..NF : FName[k] = c
         THEN {IF r.tb = tb THEN [r EXCEPT !.f = [@ EXCEPT ![IdxOf(FName, c)] = Null]] ELSE r : r \in S.r}
         ELSE S.r,
   c |-> S.c \ {<<tb, c>>}]
DropTableF(S, tb) == [r |-> {r \in S.r : r.tb # tb}, c |-> {c \in S.c : c[1] # tb}]

\* --- transitions ---------------------------------------------------------------
Cur == [r |-> rows, c |-> cols]
Init == rows = {} /\ cols = {} /\ pend = <<>> /\ saved = <<>>

Apply(S2, keep) ==   \* the command is logged and applied
  /\ rows' = S2.r /\ cols' = S2.c /\ pend' = <<>> /\ saved' = IF keep THEN saved ELSE <<>>
LogOnly(S2) ==       \* the command is logged; the node dies before applying it
  /\ pend' = <<S2>> /\ UNCHANGED <<rows, cols, saved>>
Quiet == pend = <<>>

Write(ws) == Quiet /\ Apply(WriteF(Cur, ws), TRUE)
WriteLogged(ws) == Quiet /\ LogOnly(WriteF(Cur, ws))
Delete(tb, e) == Quiet /\ Apply(DeleteF(Cur, tb, e), TRUE)
DeleteLogged(tb, e) == Quiet /\ LogOnly(DeleteF(Cur, tb, e))
Retag(tb, series, set) == Quiet /\ Apply(RetagF(Cur, tb, series, set), FALSE)
RetagLogged(tb, series, set) == Quiet /\ LogOnly(RetagF(Cur, tb, series, set))
DropCol(tb, c) == Quiet /\ Apply(DropColF(Cur, tb, c), FALSE)
DropTable(tb) == Quiet /\ Apply(DropTableF(Cur, tb), FALSE)
Maintain == UNCHANGED vars           \* flush, compact, purge the log, sync the index
\* restart; lose = 1: the last entry was never committed and is dropped
Restart(lose) ==
  LET S == IF lose = 1 \/ pend = <<>> THEN Cur ELSE pend[1] IN
  /\ rows' = S.r /\ cols' = S.c /\ pend' = <<>> /\ UNCHANGED saved
Save == Quiet /\ saved' = <<rows>> /\ UNCHANGED <<rows, cols, pend>>
Restore == Quiet /\ saved # <<>> /\ Apply([r |-> saved[1], c |-> cols], TRUE)

\* --- reads ------------------------------------------------------------------------
HasValue(f) == \E k \in 1..NF : f[k] # Null
OneRowPerKey == \A r, s \in rows : Key(r) = Key(s) => r = s
\* Every stored row holds a value in some field of the schema (or all of them were dropped).
TypeOK == OneRowPerKey /\ \A r \in rows : HasTable(r.tb)
=============================================================================
