------------------------------- MODULE Lines -------------------------------
(* What written text means.  Text is a sequence of code points; a number is   *)
(* its sign and digits.  A line-protocol document is a sequence of lines       *)
(* [junk, table, tags, sp1, fields, sp2, ts, end]: what it is written as       *)
(* (Render) and what must be understood (Meant).  A field value and a          *)
(* timestamp are kept as written; Val says what they mean: a value, "bad"      *)
(* (the whole document is refused) or "any" (nothing is said).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
BS == 92
Esc(q, S) == FlattenSeq([k \in DOMAIN q |-> IF q[k] \in S THEN <<BS, q[k]>> ELSE <<q[k]>>])
Spaces(n) == [k \in 1..n |-> 32]
RECURSIVE Join(_, _)
Join(q, c) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o <<c>> \o Join(Tail(q), c)
RECURSIVE Split(_, _)
Split(q, c) == LET at == {k \in DOMAIN q : q[k] = c} IN
  IF at = {} THEN <<q>> ELSE LET k == CHOOSE m \in at : \A n \in at : m <= n IN <<SubSeq(q, 1, k - 1)>> \o Split(SubSeq(q, k + 1, Len(q)), c)

NameEsc == {44, 32, 61}
RenderLine(p) ==
  p.junk \o Esc(p.table, {44, 32}) \o FlattenSeq([k \in DOMAIN p.tags |-> <<44>> \o Esc(p.tags[k][1], NameEsc) \o <<61>> \o Esc(p.tags[k][2], NameEsc)])
  \o Spaces(p.sp1) \o Join([k \in DOMAIN p.fields |-> Esc(p.fields[k][1], NameEsc) \o <<61>> \o p.fields[k][2]], 44)
  \o Spaces(p.sp2) \o p.ts \o p.end
Render(doc) == FlattenSeq([k \in DOMAIN doc |-> RenderLine(doc[k])])

Bad == <<"bad", FALSE, <<>>, 0>>
Unsure == <<"any", FALSE, <<>>, 0>>
Digit(c) == c \in 48..57
Digits(q) == q # <<>> /\ \A k \in DOMAIN q : Digit(q[k])
RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
DecLe(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ ~LexLt(b, a))
IMax == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
IMin == <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
UMax == <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
RECURSIVE NoLead(_)
NoLead(q) == IF q # <<>> /\ q[1] = 48 THEN NoLead(Tail(q)) ELSE q
RECURSIVE NoTrail(_)
NoTrail(q) == IF q # <<>> /\ q[Len(q)] = 48 THEN NoTrail(Front(q)) ELSE q
RECURSIVE Num(_)
Num(q) == IF q = <<>> THEN 0 ELSE Num(Front(q)) * 10 + q[Len(q)] - 48

IntOf(q) ==
  LET neg == q # <<>> /\ q[1] = 45  d == IF neg THEN Tail(q) ELSE q IN
  IF q # <<>> /\ q[1] = 43 THEN Unsure
  ELSE IF ~Digits(d) THEN Bad
  ELSE IF d[1] = 48 /\ (Len(d) > 1 \/ neg) THEN Unsure
  ELSE IF DecLe(d, IF neg THEN IMin ELSE IMax) THEN <<"i", neg, d, 0>> ELSE Bad
UInt(q) ==
  IF q # <<>> /\ q[1] = 43 THEN Unsure
  ELSE IF ~Digits(q) THEN Bad
  ELSE IF q[1] = 48 /\ Len(q) > 1 THEN Unsure
  ELSE IF DecLe(q, UMax) THEN <<"u", FALSE, q, 0>> ELSE Bad
\* a decimal of up to 15 digits is the number it says; the digits are those that count, the exponent that of the first
Float(q) ==
  LET neg == q[1] = 45  r == IF neg THEN Tail(q) ELSE q
      es == {k \in DOMAIN r : r[k] \in {69, 101}}  e == IF es = {} THEN 0 ELSE CHOOSE k \in es : \A j \in es : k <= j
      m == IF e = 0 THEN r ELSE SubSeq(r, 1, e - 1)  x == IF e = 0 THEN <<48>> ELSE SubSeq(r, e + 1, Len(r))
      xneg == x # <<>> /\ x[1] = 45  xd == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
      parts == Split(m, 46)
      good == /\ Digits(parts[1]) /\ Len(parts) <= 2 /\ (Len(parts) = 2 => Digits(parts[2])) /\ Digits(xd)
      odd == \E k \in DOMAIN q : ~Digit(q[k]) /\ q[k] \notin {43, 45, 46, 69, 101} IN
  IF odd THEN IF \E k \in DOMAIN q : q[k] \in {78, 110} THEN Unsure ELSE Bad
  ELSE IF Len(Split(q, 46)) > 2 THEN Bad
  ELSE IF ~good \/ Len(m) > 16 \/ Len(xd) > 2 THEN Unsure
  ELSE LET all == IF Len(parts) = 2 THEN parts[1] \o parts[2] ELSE parts[1]
           d == NoLead(all)
           ex == Len(parts[1]) - 1 - (Len(all) - Len(d)) + (IF xneg THEN -Num(xd) ELSE Num(xd)) IN
       IF d = <<>> THEN <<"f", neg, <<48>>, 0>> ELSE <<"f", neg, NoTrail(d), ex>>
\* the text of a quoted string, and how it ended
RECURSIVE Quoted(_, _, _)
Quoted(q, k, acc) ==
  IF k > Len(q) THEN <<"any", acc>>
  ELSE IF q[k] = BS THEN IF k = Len(q) THEN <<"any", acc>> ELSE IF q[k + 1] \in {34, BS} THEN Quoted(q, k + 2, Append(acc, q[k + 1])) ELSE IF q[k + 1] = 39 THEN <<"any", acc>> ELSE <<"bad", acc>>
  ELSE IF q[k] = 34 THEN IF k = Len(q) THEN <<"ok", acc>> ELSE IF q[Len(q)] = 34 THEN <<"any", acc>> ELSE <<"bad", acc>>
  ELSE Quoted(q, k + 1, Append(acc, q[k]))
Trues == {<<116>>, <<84>>, <<116,114,117,101>>, <<84,114,117,101>>, <<84,82,85,69>>}
Falses == {<<102>>, <<70>>, <<102,97,108,115,101>>, <<70,97,108,115,101>>, <<70,65,76,83,69>>}
Val(q) ==
  IF q = <<>> THEN Bad
  ELSE IF q \in Trues THEN <<"b", TRUE, <<>>, 0>> ELSE IF q \in Falses THEN <<"b", FALSE, <<>>, 0>>
  ELSE IF q[1] = 34 THEN LET r == Quoted(q, 2, <<>>) IN IF r[1] = "ok" THEN <<"s", FALSE, r[2], 0>> ELSE IF r[1] = "bad" THEN Bad ELSE Unsure
  ELSE IF q[1] = 43 THEN Unsure
  ELSE IF ~(Digit(q[1]) \/ q[1] = 45) THEN Bad
  ELSE IF q[Len(q)] = 105 THEN IntOf(Front(q)) ELSE IF q[Len(q)] = 117 THEN UInt(Front(q)) ELSE Float(q)
Stamp(ts, now) == IF ts = <<>> THEN <<now[1], now[2]>> ELSE LET v == IntOf(ts) IN <<v[2], v[3]>>
StampIs(ts, k) == ts # <<>> /\ IntOf(ts)[1] = k

\* of a name given twice the first counts; names are kept in order
FirstOnly(q) == LET keep == {k \in DOMAIN q : \A j \in 1..(k - 1) : q[j][1] # q[k][1]} IN
  LET ks == SetToSortSeq(keep, LAMBDA a, b : LexLt(q[a][1], q[b][1])) IN [n \in DOMAIN ks |-> q[ks[n]]]
Vals(fs) == [k \in DOMAIN fs |-> <<fs[k][1], Val(fs[k][2])>>]
\* no fields at the end of the text: nothing to keep
Ends(doc, k) == k = Len(doc)
Refused(doc) == \E k \in DOMAIN doc : (\E f \in DOMAIN doc[k].fields : Val(doc[k].fields[f][2]) = Bad) \/ StampIs(doc[k].ts, "bad") \/ (doc[k].fields = <<>> /\ Ends(doc, k))
Unsaid(doc) == \E k \in DOMAIN doc : (\E f \in DOMAIN doc[k].fields : Val(doc[k].fields[f][2]) = Unsure) \/ StampIs(doc[k].ts, "any") \/ (doc[k].fields = <<>> /\ ~Ends(doc, k))
Meant(doc, now) == [k \in DOMAIN doc |-> [table |-> doc[k].table, tags |-> FirstOnly(doc[k].tags), fields |-> FirstOnly(Vals(doc[k].fields)), ts |-> Stamp(doc[k].ts, now), hash |-> TRUE]]

\* the rows of a table: one column for each name, of one type; a row without a value has none
TimeName == <<116, 105, 109, 101>>
Uses(M) == UNION {{<<M[k].table, TimeName, "time", "i">>} \cup {<<M[k].table, M[k].tags[n][1], "tag", "s">> : n \in DOMAIN M[k].tags}
                  \cup {<<M[k].table, M[k].fields[n][1], "field", M[k].fields[n][2][1]>> : n \in DOMAIN M[k].fields} : k \in DOMAIN M}
Clash(M) == \E a, b \in Uses(M) : a[1] = b[1] /\ a[2] = b[2] /\ a # b
At(m, name) ==
  LET g == {n \in DOMAIN m.tags : m.tags[n][1] = name}  f == {n \in DOMAIN m.fields : m.fields[n][1] = name} IN
  IF name = TimeName THEN <<<<"i", m.ts[1], m.ts[2], 0>>>>
  ELSE IF g # {} THEN <<<<"s", FALSE, m.tags[CHOOSE n \in g : TRUE][2], 0>>>>
  ELSE IF f # {} THEN <<m.fields[CHOOSE n \in f : TRUE][2]>> ELSE <<>>
Tables(M) ==
  LET T(t) == LET R == SelectSeq(M, LAMBDA m : m.table = t) IN
        [t |-> t, rows |-> Len(R), cols |-> {[n |-> x[2], c |-> x[3], ty |-> x[4], v |-> [k \in DOMAIN R |-> At(R[k], x[2])]] : x \in {y \in Uses(M) : y[1] = t}}] IN
  {T(t) : t \in {M[k].table : k \in DOMAIN M}}

\* OpenTSDB: metric, time, value, tags, by spaces
Tsdb(tokens) ==
  [table |-> tokens[1], tags |-> FirstOnly([k \in 1..(Len(tokens) - 3) |-> LET kv == Split(tokens[k + 3], 61) IN <<kv[1], kv[2]>>]),
   fields |-> <<<<<<118, 97, 108, 117, 101>>, Float(tokens[3])>>>>, ts |-> <<IntOf(tokens[2])[2], IntOf(tokens[2])[3]>>, hash |-> TRUE]
\* what has arrived in full, line by line
RECURSIVE Whole(_)
Chop(q) == IF q # <<>> /\ q[Len(q)] = 13 THEN Front(q) ELSE q
Whole(q) == LET at == {k \in DOMAIN q : q[k] = 10} IN
  IF at = {} THEN [ls |-> <<>>, rest |-> q]
  ELSE LET k == CHOOSE m \in at : \A n \in at : m <= n  w == Whole(SubSeq(q, k + 1, Len(q))) IN [ls |-> <<Chop(SubSeq(q, 1, k - 1))>> \o w.ls, rest |-> w.rest]

\* JSON: every leaf under the path to it
RECURSIVE Flatten(_, _)
Under(n, k) == IF n = "" THEN k ELSE n \o "." \o k
Flatten(n, v) ==
  IF "o" \in DOMAIN v THEN UNION {{<<Under(n, x[1]), x[2]>> : x \in Flatten(v.o[k][1], v.o[k][2])} : k \in DOMAIN v.o}
  ELSE IF "a" \in DOMAIN v THEN UNION {{<<Under(n, x[1]), x[2]>> : x \in Flatten(ToString(k - 1), v.a[k])} : k \in DOMAIN v.a}
  ELSE {<<n, IF "s" \in DOMAIN v THEN <<"s", v.s>> ELSE IF "n" \in DOMAIN v THEN <<"n", v.n>> ELSE IF "b" \in DOMAIN v THEN <<"b", IF v.b THEN <<1>> ELSE <<0>>>> ELSE <<"z", <<>>>>>>}

\* a trace: each span with what belongs to its scope and resource, and nothing of another span
Attr(pre, as) == {<<pre \o "attributes/" \o as[k][1], <<"s", as[k][3]>>>> : k \in DOMAIN as}
N(x) == <<"n", ToString(x)>>
St(x) == <<"s", x>>
KindName(k) == CASE k = 1 -> "SPAN_KIND_INTERNAL" [] k = 2 -> "SPAN_KIND_SERVER" [] k = 3 -> "SPAN_KIND_CLIENT" [] k = 4 -> "SPAN_KIND_PRODUCER" [] k = 5 -> "SPAN_KIND_CONSUMER" [] OTHER -> "SPAN_KIND_UNSPECIFIED"
CodeName(k) == CASE k = 1 -> "STATUS_CODE_OK" [] k = 2 -> "STATUS_CODE_ERROR" [] OTHER -> "STATUS_CODE_UNSET"
OfResource(r) == {<<"ResourceSpans/schema_url", St(r.url)>>} \cup (IF r.res = <<>> THEN {} ELSE
  Attr("ResourceSpans/Resource/", r.res[1].attrs) \cup {<<"ResourceSpans/Resource/dropped_attributes_count", N(r.res[1].drop)>>})
OfScope(c) == {<<"ResourceSpans/ScopeSpans/schema_url", St(c.url)>>} \cup (IF c.scope = <<>> THEN {} ELSE
  LET p == "ResourceSpans/ScopeSpans/InstrumentationScope/"  x == c.scope[1] IN
  Attr(p, x.attrs) \cup {<<p \o "name", St(x.name)>>, <<p \o "version", St(x.ver)>>, <<p \o "dropped_attributes_count", N(x.drop)>>})
OfSpan(s) ==
  LET p == "ResourceSpans/ScopeSpans/Span/" IN
  {<<p \o "trace_id", St(s.tid)>>, <<p \o "span_id", St(s.sid)>>, <<p \o "trace_state", St(s.state)>>, <<p \o "parent_span_id", St(s.pid)>>, <<p \o "flags", N(s.flags)>>, <<p \o "name", St(s.name)>>,
   <<p \o "kind", St(KindName(s.kind))>>, <<p \o "start_time_unix_nano", N(s.start)>>, <<p \o "end_time_unix_nano", N(s.end)>>, <<p \o "duration_nano", N(IF s.end >= s.start THEN s.end - s.start ELSE 0)>>,
   <<p \o "dropped_attributes_count", N(s.drop)>>, <<p \o "dropped_events_count", N(s.dropev)>>, <<p \o "dropped_links_count", N(s.droplk)>>}
  \cup Attr(p, s.attrs)
  \cup UNION {LET e == s.events[k]  q == p \o "Event_" \o ToString(k - 1) \o "/" IN
       {<<q \o "time_unix_nano", N(e.time)>>, <<q \o "name", St(e.name)>>, <<q \o "dropped_attributes_count", N(e.drop)>>} \cup Attr(q, e.attrs) : k \in DOMAIN s.events}
  \cup UNION {LET e == s.links[k]  q == p \o "Link_" \o ToString(k - 1) \o "/" IN
       {<<q \o "trace_id", St(e.tid)>>, <<q \o "span_id", St(e.sid)>>, <<q \o "trace_state", St(e.state)>>, <<q \o "dropped_attributes_count", N(e.drop)>>, <<q \o "flags", N(e.flags)>>} \cup Attr(q, e.attrs) : k \in DOMAIN s.links}
  \cup (IF s.status = <<>> THEN {} ELSE {<<p \o "Status/code", St(CodeName(s.status[1].code))>>, <<p \o "Status/message", St(s.status[1].msg)>>})
Logs(rs) == FlattenSeq([i \in DOMAIN rs |-> FlattenSeq([j \in DOMAIN rs[i].scopes |-> [k \in DOMAIN rs[i].scopes[j].spans |-> OfResource(rs[i]) \cup OfScope(rs[i].scopes[j]) \cup OfSpan(rs[i].scopes[j].spans[k])]])])
=============================================================================
