------------------------- MODULE SqlRunnerTrace -------------------------
EXTENDS SqlRunner, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
SetOf(s) == {s[i] : i \in DOMAIN s}
TInit == l = 1 /\ Init
Sent(s, w) == /\ E.path = Path(w.kind) /\ {<<E.query[i][1], E.query[i][2]>> : i \in DOMAIN E.query} = Query(s, w.kind) /\ Len(E.query) = Cardinality(Query(s, w.kind))
              /\ E.user = s.user /\ E.pass = s.password /\ E.body = w.lines /\ E.method = "POST" /\ E.accept = "text/csv"
(* the answer: refused, or (for statements) its rows, each cell quoted *)
Answer(w) == IF E.status # 200 THEN ~E.done
             ELSE /\ E.done
                  /\ E.rows = (IF w.kind = "sql" THEN [i \in DOMAIN E.reply |-> [j \in DOMAIN E.reply[i] |-> "\"" \o E.reply[i][j] \o "\""]] ELSE <<>>)
                  /\ E.types = (IF w.kind = "sql" /\ E.reply # <<>> THEN [i \in DOMAIN E.reply[1] |-> "T"] ELSE <<>>)
(* a statement by Flight SQL: every call under the settings in force *)
Known(cs) == SelectSeq(cs, LAMBDA x : x.call \in {"handshake", "prepare", "info", "get"})
Part(p) == IF p = <<>> THEN <<>> ELSE [i \in DOMAIN p[1] |-> [fields |-> E.fl.fields, rows |-> p[1][i]]]
RECURSIVE All(_)
All(ps) == IF ps = <<>> THEN <<>> ELSE Part(ps[1]) \o All(Tail(ps))
FlightOk(s, w) ==
  LET got == Known(E.calls)
      exp == Calls(Prepared(E.create, w.lines), E.fl.fail, E.shape)
  IN /\ (E.create # <<>> => <<AsWritten(E.create[1])>> = w.lines)
     /\ Len(got) = Len(exp)
     /\ \A i \in DOMAIN exp : /\ got[i].call = exp[i].call /\ got[i].tenant = s.tenant /\ got[i].db = s.database /\ got[i].parts = "8"
                              /\ (IF exp[i].call = "handshake" THEN got[i].user = s.user /\ got[i].pass = s.password ELSE got[i].what = exp[i].what /\ got[i].auth = "Bearer tok")
     /\ E.done = (E.fl.fail = "")
     /\ (E.done => E.types = [i \in DOMAIN E.fl.fields |-> TypeChar(E.fl.fields[i][2])] /\ E.rows = Rows(All(E.shape)))
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("open") /\ Open(E.hh, E.hp, E.fh, E.fp, IF E.pwd = <<>> THEN E.cwd ELSE E.pwd[1], E.shard, E.replica) /\ E.set = set'
     \/ Is("record") /\ Record(E.lines) /\ E.set = set' /\ (LET w == What(E.lines) IN
             /\ E.ok = w.ok
             /\ (w.ok => E.http = w.http /\ E.kind = w.kind /\ E.text = w.lines)
             /\ (E.sent # (w.ok /\ (w.kind \in {"lp", "tsdb", "json"} \/ (w.kind = "sql" /\ w.http))) => FALSE)
             /\ (E.sent => Sent(set', w) /\ Answer(w))
             /\ (w.ok /\ w.kind = "sql" /\ ~w.http => FlightOk(set', w)))
     \/ Is("create") /\ E.got = Complete(E.head, E.head, E.withw, E.opts, E.low, E.semi, E.shard, E.replica) /\ UNCHANGED vars
     \/ Is("rows") /\ (IF SameFields(E.batches) THEN E.ok /\ E.rows = Rows(E.batches) ELSE ~E.ok) /\ UNCHANGED vars
          /\ E.types = [i \in DOMAIN E.batches[1].fields |-> TypeChar(E.batches[1].fields[i][2])]
     \/ Is("files") /\ E.got = Chosen(SetOf(E.tree), E.filters) /\ UNCHANGED vars
     \/ Is("session") /\ UNCHANGED vars /\ (LET r == UntilFail(Runs(SetOf(E.tree), E.filters), SetOf(E.bad)) IN
             E.ran = r /\ E.success = (r = <<>> \/ r[Len(r)] \notin SetOf(E.bad)))
     \/ Is("suite") /\ run' = [pwd |-> E.pwd, shard |-> E.shard, replica |-> E.replica] /\ UNCHANGED set
     \/ Is("suite-end") /\ UNCHANGED vars
          /\ (\A i \in DOMAIN E.files : \A j \in DOMAIN E.files[i] : LET r == E.files[i][j] IN r.create # <<>> => r.sql = AsWritten(r.create[1]))
          /\ E.calls = RunFiles(E.files, E.mode, E.fill)
          /\ E.success = (E.fill \/ \A i \in DOMAIN E.files : FilePasses(E.files[i], E.mode))
          /\ \A i \in DOMAIN E.files : E.after[i] = (IF E.fill THEN After(E.files[i], E.mode, TRUE) ELSE E.before[i])
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
