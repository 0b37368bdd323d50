----------------------------- MODULE LinesTrace -----------------------------
EXTENDS Lines, Json, IOUtils
VARIABLES l, rest
tvars == <<l, rest>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
SetOf(q) == {q[k] : k \in DOMAIN q}
Same(q, X) == SetOf(q) = X /\ Len(q) = Cardinality(X)
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
Keep == UNCHANGED rest
TReset == Is("reset") /\ rest' = <<>>
TableView(v) == [t |-> v.t, rows |-> v.rows, cols |-> SetOf(v.cols)]
TablesAre(q, X) == {TableView(q[k]) : k \in DOMAIN q} = X /\ Len(q) = Cardinality(X) /\ \A k \in DOMAIN q : Len(q[k].cols) = Cardinality(SetOf(q[k].cols))
NowOf == Stamp(E.nowc, <<FALSE, <<>>>>)
TLp == Is("lp") /\ Keep /\ E.text = Render(E.doc) /\
  IF Refused(E.doc) THEN E.res = "err"
  ELSE Unsaid(E.doc) \/
    LET M == TLCEval(Meant(E.doc, NowOf)) IN
    /\ E.res = "ok" /\ E.got.lines = M
    /\ IF Clash(M) THEN E.got.res = "err"
       ELSE LET T == TLCEval(Tables(M)) IN E.got.res = "ok" /\ TablesAre(E.got.mem, T) /\ TablesAre(E.got.wire.tabs, T) /\ E.got.wire.db = "a db"
\* any text at all: understood or refused
TFuzz == l <= Len(Trace) /\ E.op \in {"fuzz", "tsfuzz"} /\ l' = l + 1 /\ Keep
TTsdb == Is("tsdb") /\ Keep /\ E.text = FlattenSeq([k \in DOMAIN E.doc |-> Join(E.doc[k].tokens, 32) \o E.doc[k].end]) /\
  E.res = "ok" /\ E.lines = [k \in DOMAIN E.doc |-> Tsdb(E.doc[k].tokens)]
TTsjson == Is("tsjson") /\ Keep /\ E.res = "ok" /\ E.line = Tsdb(E.tokens)
TFeed == Is("feed") /\ LET w == TLCEval(Whole(rest \o E.text))  full == SelectSeq(w.ls, LAMBDA q : q # <<>>) IN
  /\ rest' = w.rest /\ E.res = "ok"
  /\ E.lines = [k \in DOMAIN full |-> Tsdb(Tail(Split(full[k], 32)))]
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dig(n \div 10), 48 + (n % 10))
IntV(n) == <<"i", n < 0, Dig(IF n < 0 THEN -n ELSE n), 0>>
ArrowV(k, x) == CASE k \in {"t", "i"} -> IntV(x) [] k = "u" -> <<"u", FALSE, Dig(x), 0>> [] k \in {"g", "s"} -> <<"s", FALSE, x, 0>> [] k = "b" -> <<"b", x = 1, <<>>, 0>>
                  [] OTHER -> Float(IF x < 0 THEN <<45>> \o Dig(-x) ELSE Dig(x))
ArrowTy(k) == IF k = "t" THEN "i" ELSE IF k = "g" THEN "s" ELSE k
TArrow == Is("arrow") /\ Keep /\
  IF \E k \in DOMAIN E.cols : E.cols[k].out \/ E.cols[k].as # "" THEN E.res = "err"
  ELSE /\ E.res = "ok" /\ E.wire.db = "a db"
       /\ TablesAre(E.wire.tabs, {[t |-> <<116, 97, 98>>, rows |-> E.rows, cols |-> {[n |-> c.n, c |-> IF c.k = "t" THEN "time" ELSE IF c.k = "g" THEN "tag" ELSE "field", ty |-> ArrowTy(c.k),
            v |-> [r \in DOMAIN c.v |-> IF c.v[r] = <<>> THEN <<>> ELSE <<ArrowV(c.k, c.v[r][1])>>]] : c \in SetOf(E.cols)}]})
TNd == Is("ndjson") /\ Keep /\ E.res = "ok" /\ Len(E.logs) = Len(E.docs) /\ \A k \in DOMAIN E.docs : Same(E.logs[k], Flatten("", E.docs[k]))
TBulk == Is("bulk") /\ Keep /\
  IF E.bad THEN E.res = "err"
  ELSE E.res = "ok" /\ Len(E.logs) = Len(E.pairs) /\ \A k \in DOMAIN E.pairs : Same(E.logs[k], Flatten("", E.pairs[k]))
Nanos(t) == IF t = <<>> THEN "0" ELSE IF t[1][1] = 0 THEN ToString(t[1][2]) ELSE ToString(t[1][1]) \o SubSeq(ToString(1000000000 + t[1][2]), 2, 10)
TLoki == Is("loki") /\ Keep /\
  IF E.big THEN E.res = "err"
  ELSE LET want == FlattenSeq([i \in DOMAIN E.streams |-> [k \in DOMAIN E.streams[i].es |->
              {<<"lables", St(E.streams[i].labels)>>, <<"time", <<"n", Nanos(E.streams[i].es[k].ts)>>>>, <<"msg", St(E.streams[i].es[k].line)>>}]]) IN
       E.res = "ok" /\ Len(E.logs) = Len(want) /\ \A k \in DOMAIN want : Same(E.logs[k], want[k])
TOtlp == Is("otlp") /\ Keep /\ LET want == TLCEval(Logs(E.rs)) IN E.res = "ok" /\ Len(E.logs) = Len(want) /\ \A k \in DOMAIN want : Same(E.logs[k], want[k])
TKind == Is("kind") /\ Keep /\ E.k = E.want
\* a JSON object becomes a row: some leaves are tags, one is the time, the rest are fields
Times == ("2022-10-10T10:10:10Z" :> <<FALSE, <<49,54,54,53,51,57,54,54,49,48,48,48,48,48,48,48,48,48,48>>>>) @@ ("1970-01-01T00:00:00.000000001Z" :> <<FALSE, <<49>>>>)
         @@ ("1969-12-31T23:59:59.5+00:00" :> <<TRUE, <<53,48,48,48,48,48,48,48,48>>>>) @@ ("1970-01-01T01:00:00+01:00" :> <<FALSE, <<48>>>>)
TToLine == Is("toline") /\ Keep /\
  LET F == Flatten("", E.doc)
      tags == {x \in F : x[1] \in SetOf(E.tagset)}
      tm == {x \in F \ tags : x[1] = E.time}
      fl == F \ (tags \cup tm)
      TagText(v) == IF v[1] = "b" THEN (IF v[2] = <<1>> THEN <<116,114,117,101>> ELSE <<102,97,108,115,101>>) ELSE v[2]
      FieldV(v) == CASE v[1] = "b" -> <<"b", v[2] = <<1>>, <<>>, 0>> [] v[1] = "n" -> Float(v[2]) [] OTHER -> <<"s", FALSE, v[2], 0>>
      t == (CHOOSE x \in tm : TRUE)[2] IN
  IF (\E x \in fl : x[2][1] = "z") \/ (tm # {} /\ (t[1] \in {"b", "z"} \/ (t[1] = "n" /\ IntOf(t[2])[1] = "bad") \/ (t[1] = "s" /\ E.timestr \notin DOMAIN Times))) THEN E.res = "err"
  ELSE /\ E.res = "ok"
       /\ Same(E.line.tags, {<<x[1], TagText(x[2])>> : x \in tags}) /\ Len(E.line.fields) = Cardinality(fl) /\ (\A x \in fl : \E k \in DOMAIN E.line.fields : LET w == FieldV(x[2]) IN E.line.fields[k][1] = x[1] /\ (w = Unsure \/ E.line.fields[k][2] = w))
       /\ IF tm = {} THEN E.line.isnow ELSE E.line.ts = (IF t[1] = "n" THEN Stamp(t[2], <<>>) ELSE Times[E.timestr])
TInit == l = 1 /\ rest = <<>>
TNext == TReset \/ TLp \/ TFuzz \/ TTsdb \/ TTsjson \/ TFeed \/ TArrow \/ TNd \/ TBulk \/ TLoki \/ TOtlp \/ TKind \/ TToLine
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN IF d - 1 = Len(Trace) THEN TRUE ELSE Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
