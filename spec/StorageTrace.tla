---------------------------- MODULE StorageTrace ----------------------------
\* Checks recordings of the real engine (harness h_tskv store) against Storage.
EXTENDS Storage, Json, IOUtils
VARIABLE l
tvars == <<vars, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Filter == IF "filter" \in DOMAIN E THEN E.filter ELSE [k |-> "all"]
Applied == "apply" \notin DOMAIN E \/ E.apply
Row(w) == [tb |-> w.tb, tags |-> w.tags, t |-> w.t, f |-> w.f]
Batch == [k \in DOMAIN E.rows |-> Row(E.rows[k])]
SeriesArg == {E.series[k] : k \in DOMAIN E.series}

SeriesOf(tb) == {r.tags : r \in {x \in rows : x.tb = tb}}

TNew == Is("new") /\ rows' = {} /\ cols' = {} /\ pend' = <<>> /\ saved' = <<>>
TWrite == Is("write") /\ (IF Applied THEN E.res = "ok" /\ Write(Batch) ELSE WriteLogged(Batch))
\* DELETE takes conjunctions of comparisons; it may refuse anything else
RECURSIVE Refs(_)
Refs(e) == CASE e.k \in {"and", "or"} -> Refs(e.l) \cup Refs(e.r) [] e.k = "not" -> Refs(e.l) [] e.k \in {"all", "const"} -> {} [] OTHER -> {e.c}
Unknown(tb) == \E c \in Refs(Filter) : ~HasCol(tb, c)
RECURSIVE Simple(_)
Simple(e) == CASE e.k = "and" -> Simple(e.l) /\ Simple(e.r) [] e.k \in {"cmp", "all", "const"} -> TRUE [] OTHER -> FALSE
TDelete == Is("delete") /\
  (IF ~HasTable(E.tb) THEN E.res = "notable" /\ UNCHANGED vars
   ELSE IF Unknown(E.tb) THEN E.res = "nocol" /\ UNCHANGED vars
   ELSE IF E.res = "unsupported" THEN ~Simple(Filter) /\ UNCHANGED vars
   ELSE IF Applied THEN E.res = "ok" /\ Delete(E.tb, Filter) ELSE DeleteLogged(E.tb, Filter))
\* Two series may not become one. Series without rows may still count as existing.
TRetag == Is("updtags") /\
  (IF ~HasTable(E.tb) THEN E.res = "notable" /\ UNCHANGED vars
   ELSE IF \E k \in 1..NG : E.set[k] # "=" /\ ~HasCol(E.tb, GName[k]) THEN E.res = "nocol" /\ UNCHANGED vars
   ELSE LET live == SeriesOf(E.tb)
            hit == SeriesArg \cap live
            new == {NewTags(x, E.set) : x \in hit}
            clash == new \cap live # {} \/ Cardinality(new) # Cardinality(hit)
        IN IF E.res = "conflict" THEN UNCHANGED vars /\ (clash \/ E.sure = 0)
           ELSE /\ ~clash
                /\ IF Applied THEN E.res = "ok" /\ Retag(E.tb, SeriesArg, E.set) ELSE RetagLogged(E.tb, SeriesArg, E.set))
TDropCol == Is("dropcol") /\
  (IF ~HasTable(E.tb) THEN E.res = "notable" /\ UNCHANGED vars
   ELSE IF ~HasCol(E.tb, E.col) THEN E.res = "nocol" /\ UNCHANGED vars
   ELSE E.res = "ok" /\ DropCol(E.tb, E.col))
TDropTable == Is("droptable") /\
  (IF ~HasTable(E.tb) THEN E.res = "notable" /\ UNCHANGED vars ELSE E.res = "ok" /\ DropTable(E.tb))
TMaintain == (Is("flush") \/ Is("compact") \/ Is("purge")) /\ E.res = "ok" /\ Maintain
TCrash == Is("crash") /\ E.res = "ok" /\ Restart(E.lose)
TSave == Is("snap") /\ E.res = "ok" /\ Save
TRestore == Is("restore") /\ (IF saved = <<>> THEN UNCHANGED vars /\ E.res = "nosnap" ELSE E.res = "ok" /\ Restore)

\* what a result row says: absent columns read as null
Cell(x) == IF x = "none" THEN Null ELSE x
Seen(q) == [tags |-> [k \in 1..NG |-> Cell(q.tags[k])] \o <<>>, t |-> q.t, f |-> [k \in 1..NF |-> Cell(q.f[k])] \o <<>>]
Proj == IF "proj" \in DOMAIN E THEN {E.proj[k] : k \in DOMAIN E.proj} \cup Refs(Filter) ELSE {GName[k] : k \in 1..NG} \cup {FName[k] : k \in 1..NF}
View(r) == [tags |-> [k \in 1..NG |-> IF GName[k] \in Proj THEN r.tags[k] ELSE Null] \o <<>>, t |-> r.t,
            f |-> [k \in 1..NF |-> IF FName[k] \in Proj THEN r.f[k] ELSE Null] \o <<>>]
TQuery == Is("query") /\ UNCHANGED vars /\
  (IF ~HasTable(E.tb) THEN E.res = "notable"
   ELSE IF Unknown(E.tb) THEN E.res = "nocol"
   ELSE LET mine == {r \in rows : r.tb = E.tb}
            got == {Seen(E.rows[k]) : k \in DOMAIN E.rows}
            fullproj == "proj" \notin DOMAIN E
            must == {r \in mine : HasValue(r.f) /\ Matches(Filter, r)}
        IN /\ E.res = "ok"
           /\ fullproj => (Cardinality(got) = E.n)                        \* no row twice
           /\ E.n <= Cardinality(mine)
           /\ {View(r) : r \in must} \subseteq got                        \* nothing missing
           /\ got \subseteq {View(r) : r \in mine}                        \* nothing invented, nothing stale
           /\ ("filter" \notin DOMAIN E) => (E.n >= Cardinality(must)))
TSeries == Is("series") /\ UNCHANGED vars /\
  (IF ~HasTable(E.tb) THEN E.res = "notable"
   ELSE LET got == {E.keys[k] : k \in DOMAIN E.keys}
            must == {r.tags : r \in {x \in rows : x.tb = E.tb /\ HasValue(x.f) /\ Matches(Filter, x)}}
        IN E.res = "ok" /\ Cardinality(got) = E.n /\ Len(E.keys) = E.n /\ must \subseteq got)

TInit == Init /\ l = 1
TNext == TNew \/ TWrite \/ TDelete \/ TRetag \/ TDropCol \/ TDropTable \/ TMaintain \/ TCrash \/ TSave \/ TRestore \/ TQuery \/ TSeries
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
