----------------------------- MODULE SqlRunner -----------------------------
(* The SQL logic test runner: what a test record means (instructions, plain  *)
(* statements, blocks of points), what is sent to the server for it under    *)
(* which settings, how statements that create databases are completed, how   *)
(* results are written down, and which files run in which order.             *)
(* Texts whose inside matters are sequences of characters.                   *)
EXTENDS Integers, Sequences, FiniteSets
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>
In(c, s) == \E i \in DOMAIN s : s[i] = c
IsDigit(c) == In(c, DigitSeq)
IsLetter(c) == In(c, UpperSeq) \/ In(c, LowerSeq)
IdChar(c) == IsLetter(c) \/ IsDigit(c) \/ c = "_"
IsIdent(v) == v # <<>> /\ (IsLetter(v[1]) \/ v[1] = "_") /\ \A i \in DOMAIN v : IdChar(v[i])
DigitVal(c) == (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1
RECURSIVE Val(_)
Val(v) == IF v = <<>> THEN 0 ELSE Val(SubSeq(v, 1, Len(v) - 1)) * 10 + DigitVal(v[Len(v)])
IsPort(v) == v # <<>> /\ Len(v) <= 6 /\ (\A i \in DOMAIN v : IsDigit(v[i])) /\ Val(v) <= 65535
RECURSIVE Lead(_)
Lead(v) == IF v # <<>> /\ IsDigit(v[1]) THEN <<v[1]>> \o Lead(Tail(v)) ELSE <<>>
Millis(v) == LET d == Lead(v)
                 u == SubSeq(v, Len(d) + 1, Len(v))
             IN Val(d) * (CASE u = <<"m", "s">> -> 1 [] u = <<"s">> -> 1000 [] u = <<"m">> -> 60000 [] u = <<"h">> -> 3600000)

VARIABLES set,  \* the connection settings in force
          run   \* what the program was started with: [pwd, shard, replica]
vars == <<set, run>>
Default == [tenant |-> <<"c","n","o","s","d","b">>, database |-> <<"p","u","b","l","i","c">>, user |-> <<"r","o","o","t">>, password |-> <<>>,
            hhost |-> <<"l","o","c","a","l","h","o","s","t">>, hport |-> 8902, fhost |-> <<"l","o","c","a","l","h","o","s","t">>, fport |-> 8904,
            timeout |-> <<>>, precision |-> <<>>, chunked |-> <<>>]
Started == [pwd |-> "/", shard |-> "1", replica |-> "1"]
Init == set = Default /\ run = Started
(* where the servers are unless a test says otherwise; each optional *)
Placed(hh, hp, fh, fp) == [Default EXCEPT !.hhost = IF hh = <<>> THEN @ ELSE hh[1], !.hport = IF hp = <<>> THEN @ ELSE hp[1],
                                          !.fhost = IF fh = <<>> THEN @ ELSE fh[1], !.fport = IF fp = <<>> THEN @ ELSE fp[1]]
Open(hh, hp, fh, fp, pwd, shard, replica) == set' = Placed(hh, hp, fh, fp) /\ run' = [pwd |-> pwd, shard |-> shard, replica |-> replica]

(* an instruction whose value does not fit is as if it was not there *)
Apply(s, n, v) ==
  CASE v = <<>> -> s
    [] n = "TENANT" -> [s EXCEPT !.tenant = v]
    [] n = "PASSWORD" -> [s EXCEPT !.password = v]
    [] n = "HTTP_HOST" -> [s EXCEPT !.hhost = v]
    [] n = "FLIGHT_HOST" -> [s EXCEPT !.fhost = v]
    [] n = "HTTP_PORT" /\ IsPort(v) -> [s EXCEPT !.hport = Val(v)]
    [] n = "FLIGHT_PORT" /\ IsPort(v) -> [s EXCEPT !.fport = Val(v)]
    [] n = "DATABASE" /\ IsIdent(v) -> [s EXCEPT !.database = v]
    [] n = "USER_NAME" /\ IsIdent(v) -> [s EXCEPT !.user = v]
    [] n = "PRECISION" /\ IsIdent(v) -> [s EXCEPT !.precision = <<v>>]
    [] n = "TIMEOUT" -> [s EXCEPT !.timeout = <<Millis(v)>>]
    [] n = "CHUNKED" /\ v = <<"t","r","u","e">> -> [s EXCEPT !.chunked = <<TRUE>>]
    [] n = "CHUNKED" /\ v = <<"f","a","l","s","e">> -> [s EXCEPT !.chunked = <<FALSE>>]
    [] OTHER -> s

(* lines: [t |-> "sql" | "blank" | "http" | "begin" | "end" | "instr", n, v, x]; x: the line as written *)
Blocks == [LP |-> "lp", OPENTSDB |-> "tsdb", OPENTSDB_JSON |-> "json"]
Solid(ls) == SelectSeq(ls, LAMBDA x : x.t # "blank")
Texts(ls) == [i \in DOMAIN ls |-> ls[i].x]
Err == [ok |-> FALSE, http |-> FALSE, kind |-> "", lines |-> <<>>]
Out(h, k, ls) == [ok |-> TRUE, http |-> h, kind |-> k, lines |-> ls]
Ends(ls, n) == {i \in DOMAIN ls : ls[i].t = "end" /\ ls[i].n = n}
(* the lines of a block: up to its end mark, which is the last line and the only one *)
Block(h, n, ls) == IF Ends(ls, n) = {Len(ls)} /\ ls # <<>> THEN Out(h, Blocks[n], Texts(SubSeq(ls, 1, Len(ls) - 1))) ELSE Err
RECURSIVE Read(_, _, _, _)
(* -> <<settings, what to send>> *)
Read(ls, s, h, sql) ==
  IF ls = <<>> THEN <<s, IF sql = <<>> THEN Out(h, "nothing", <<>>) ELSE Out(h, "sql", sql)>>
  ELSE LET x == ls[1] IN
       CASE x.t = "begin" -> <<s, Block(h, x.n, Tail(ls))>>
         [] x.t = "http" -> Read(Tail(ls), s, TRUE, sql)
         [] x.t = "instr" -> Read(Tail(ls), Apply(s, x.n, x.v), h, sql)
         [] x.t = "end" -> Read(Tail(ls), s, h, sql)
         [] x.t = "sql" -> Read(Tail(ls), s, h, Append(sql, x.x))
Record(ls) == set' = Read(Solid(ls), set, FALSE, <<>>)[1] /\ UNCHANGED run
What(ls) == Read(Solid(ls), set, FALSE, <<>>)[2]
PortsOk == set.hport \in 0..65535 /\ set.fport \in 0..65535

(* --- what the server sees --------------------------------------------------- *)
Path(kind) == CASE kind = "sql" -> "/api/v1/sql" [] kind = "lp" -> "/api/v1/write" [] kind = "tsdb" -> "/api/v1/opentsdb/write" [] kind = "json" -> "/api/v1/opentsdb/put"
NS == <<"N", "S">>
Query(s, kind) == {<<"db", s.database>>, <<"tenant", s.tenant>>} \cup (IF kind = "sql" THEN {} ELSE {<<"precision", IF s.precision = <<>> THEN NS ELSE s.precision[1]>>})

(* --- statements that create a database -------------------------------------- *)
(* words before WITH, words after it (<<>>: no WITH, <<ws>>), semicolons *)
Has(ws, w) == \E i \in 1..Len(ws) - 1 : ws[i] = w
RECURSIVE Join(_)
Join(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Join(Tail(ws))
Complete(head, lowhead, withw, opts, lowopts, semi, shard, replica) ==
  IF ~(Len(head) >= 2 /\ head[1] = "create" /\ head[2] = "database") THEN Join(head) \o (IF withw = "" THEN "" ELSE " " \o withw \o " " \o Join(opts)) \o semi
  ELSE IF withw = "" THEN Join(head) \o " with shard " \o shard \o " replica " \o replica \o semi
  ELSE Join(head) \o " " \o withw \o " " \o (IF Has(lowopts, "shard") THEN "" ELSE "shard " \o shard \o " ")
         \o (IF Has(lowopts, "replica") THEN "" ELSE "replica " \o replica \o " ") \o Join(opts) \o semi

(* --- a statement sent by Flight SQL ------------------------------------------- *)
RECURSIVE Lined(_), Swap(_, _, _)
Lined(ls) == IF ls = <<>> THEN "" ELSE IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o "\n" \o Lined(Tail(ls))
Swap(x, pat, by) == IF Len(x) < Len(pat) THEN x
                    ELSE IF SubSeq(x, 1, Len(pat)) = pat THEN by \o Swap(SubSeq(x, Len(pat) + 1, Len(x)), pat, by)
                    ELSE SubSeq(x, 1, 1) \o Swap(SubSeq(x, 2, Len(x)), pat, by)
(* c: <<>>, or <<the parts of the statement that creates a database>> *)
AsWritten(c) == Join(c.head) \o (IF c.withw = "" THEN "" ELSE " " \o c.withw \o " " \o Join(c.opts)) \o c.semi
Prepared(c, ls) == Swap(IF c = <<>> THEN Lined(ls) ELSE Complete(c[1].head, c[1].head, c[1].withw, c[1].opts, c[1].low, c[1].semi, run.shard, run.replica), "$pwd", run.pwd)
(* the calls made for a statement: log in, prepare, ask where the answer is, fetch each part in order; a failure ends it *)
Call(c, w) == [call |-> c, what |-> w]
Num(i) == <<"0", "1", "2", "3", "4", "5">>[i + 1]
RECURSIVE Fetches(_, _, _)
Fetches(parts, i, fail) == IF i > Len(parts) THEN <<>>
                           ELSE IF parts[i] = <<>> THEN Fetches(parts, i + 1, fail)   \* nothing to fetch it with
                           ELSE <<Call("get", "0/" \o Num(i - 1))>> \o (IF fail \in {"get" \o Num(i - 1), "mid" \o Num(i - 1)} THEN <<>> ELSE Fetches(parts, i + 1, fail))
Calls(sql, fail, parts) ==
  <<Call("handshake", "")>> \o
  (IF fail = "login" THEN <<>> ELSE <<Call("prepare", sql)>> \o
   (IF fail = "prepare" THEN <<>> ELSE <<Call("info", "0")>> \o
    (IF fail = "info" THEN <<>> ELSE Fetches(parts, 1, fail))))

(* --- results ----------------------------------------------------------------- *)
TypeChar(t) == CASE t = "bool" -> "B" [] t \in {"i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"} -> "I"
                 [] t \in {"f16", "f32", "f64", "d128", "d256"} -> "R" [] t \in {"utf8", "large"} -> "T"
                 [] t \in {"ts_s", "ts_ms", "ts_us", "ts_ns", "ts_tz"} -> "P" [] OTHER -> "?"
RECURSIVE Escape(_), Lines(_, _), Expand(_)
Escape(c) == IF c = <<>> THEN <<>> ELSE (IF c[1] = "\"" THEN <<"\\", "\"">> ELSE <<c[1]>>) \o Escape(Tail(c))
Cell(t, c) == IF t = "utf8" THEN <<"\"">> \o Escape(c) \o <<"\"">> ELSE c
Lines(c, cur) == IF c = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                 ELSE IF c[1] = "\n" THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Lines(Tail(c), <<>>)
                 ELSE Lines(Tail(c), Append(cur, c[1]))
RECURSIVE Blanks(_)
Blanks(c) == IF c # <<>> /\ c[1] \in {" ", "\t"} THEN 1 + Blanks(Tail(c)) ELSE 0
Dashed(c) == LET n == Blanks(c) IN [i \in 1..n |-> "-"] \o SubSeq(c, n + 1, Len(c))
ExpandRow(r) == IF r = <<>> THEN <<r>>
                ELSE LET ls == Lines(r[Len(r)], <<>>) IN
                     IF Len(ls) < 2 THEN <<r>> ELSE <<SubSeq(r, 1, Len(r) - 1)>> \o [i \in DOMAIN ls |-> <<Dashed(ls[i])>>]
Expand(rs) == IF rs = <<>> THEN <<>> ELSE ExpandRow(rs[1]) \o Expand(Tail(rs))
(* batches: sequences of [fields: <<name, type>>, rows]; all must have the same fields *)
RECURSIVE Rows(_)
Rows(bs) == IF bs = <<>> THEN <<>>
            ELSE Expand([i \in DOMAIN bs[1].rows |-> [j \in DOMAIN bs[1].rows[i] |-> Cell(bs[1].fields[j][2], bs[1].rows[i][j])]]) \o Rows(Tail(bs))
SameFields(bs) == \A i \in DOMAIN bs : bs[i].fields = bs[1].fields

(* --- files --------------------------------------------------------------------- *)
(* names are sequences of character codes *)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Less(Tail(a), Tail(b))
(* a tree: set of <<path (sequence of names), file?>>; children of d in order: files by name, then directories by name *)
Kids(tree, d) == {e \in tree : Len(e[1]) = Len(d) + 1 /\ SubSeq(e[1], 1, Len(d)) = d}
Before(a, b) == IF a[2] # b[2] THEN a[2] ELSE Less(a[1][Len(a[1])], b[1][Len(b[1])])
RECURSIVE Walk(_, _), Visit(_, _)
Visit(tree, ks) == IF ks = {} THEN <<>>
                   ELSE LET k == CHOOSE k \in ks : \A o \in ks \ {k} : Before(k, o)
                        IN (IF k[2] THEN <<k[1]>> ELSE Walk(tree, k[1])) \o Visit(tree, ks \ {k})
Walk(tree, d) == Visit(tree, Kids(tree, d))
RECURSIVE Spell(_)
Spell(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o Spell(Tail(p))
StartsAt(t, f, i) == i + Len(f) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(f) - 1) = f
Hit(t, f) == CASE f[1] = "has" -> \E i \in 1..Len(t) + 1 : StartsAt(t, f[2], i)
               [] f[1] = "first" -> StartsAt(t, f[2], 1)
               [] f[1] = "last" -> Len(f[2]) <= Len(t) /\ StartsAt(t, f[2], Len(t) - Len(f[2]) + 1)
Chosen(tree, fs) == SelectSeq(Walk(tree, <<>>), LAMBDA p : fs = <<>> \/ \E i \in DOMAIN fs : Hit(Spell(p), fs[i]))
EndsWith(t, f) == Hit(t, <<"last", f>>)
Slt == <<115, 108, 116>>
WinSlt == <<95, 95, 87, 73, 78, 68, 79, 87, 83>>
StemOf(n) == LET ds == {i \in 2..Len(n) : n[i] = 46} IN IF ds = {} THEN n ELSE SubSeq(n, 1, (CHOOSE i \in ds : \A j \in ds : j <= i) - 1)
Runs(tree, fs) == SelectSeq(Chosen(tree, fs), LAMBDA p : EndsWith(Spell(p), Slt) /\ ~EndsWith(StemOf(p[Len(p)]), WinSlt))
(* run in order, stopping at the first file that fails *)
RECURSIVE UntilFail(_, _)
UntilFail(ps, bad) == IF ps = <<>> THEN <<>> ELSE IF ps[1] \in bad THEN <<ps[1]>> ELSE <<ps[1]>> \o UntilFail(Tail(ps), bad)

(* --- whole test files ------------------------------------------------------------ *)
(* a record: [cond, kind, types, want, text, via, sql, create, tenant, ans]          *)
(*   cond: <<>> or <<"onlyif" | "skipif", deployment>>; kind: "ok" | "err" | "query" | "qerr" *)
(*   want: expected lines, [n: spaces evened out, x: as written]; text: words the error must hold *)
(*   tenant: <<>> or <<t>>: set from here on in this file                             *)
(*   ans: what the server answers: [err, words, fields, rows]                         *)
Skipped(r, mode) == r.cond # <<>> /\ (IF r.cond[1] = "onlyif" THEN r.cond[2] # mode ELSE r.cond[2] = mode)
Within(x, y) == \E i \in 1..Len(y) - Len(x) + 1 : SubSeq(y, i, i + Len(x) - 1) = x
Shown(r) == (IF r.via = "http" THEN "Http error: " ELSE "Arrow error: ") \o Join(r.ans.words)
Fits(r) == r.ans.err /\ Within(r.text, Shown(r))
Quoted(x) == "\"" \o x \o "\""
Line(r, row) == Join([j \in DOMAIN row |-> IF r.via = "http" \/ r.ans.fields[j] = "utf8" THEN Quoted(row[j]) ELSE row[j]])
Got(r) == [i \in DOMAIN r.ans.rows |-> Line(r, r.ans.rows[i])]
NoTable(r) == ~r.ans.err /\ (IF r.via = "http" THEN r.ans.rows = <<>> ELSE r.ans.rows = <<>> /\ r.ans.fields = <<>>)
Asked(r) == Got(r) = [i \in DOMAIN r.want |-> r.want[i].n]
Passes(r) == CASE r.kind = "ok" -> ~r.ans.err [] r.kind = "query" -> ~r.ans.err /\ Asked(r) [] OTHER -> Fits(r)
(* what is sent, under which tenant; a failing record ends the run unless results are being filled in *)
Says(r) == IF r.via = "http" THEN r.sql ELSE Prepared(r.create, <<r.sql>>)
RECURSIVE Sends(_, _, _, _)
Sends(rs, tenant, mode, fill) ==
  IF rs = <<>> THEN <<>>
  ELSE IF Skipped(rs[1], mode) THEN Sends(Tail(rs), tenant, mode, fill)
  ELSE LET t == IF rs[1].tenant = <<>> THEN tenant ELSE rs[1].tenant[1]
       IN <<[via |-> rs[1].via, sql |-> Says(rs[1]), tenant |-> t]>> \o (IF Passes(rs[1]) \/ fill THEN Sends(Tail(rs), t, mode, fill) ELSE <<>>)
FilePasses(rs, mode) == \A i \in DOMAIN rs : Skipped(rs[i], mode) \/ Passes(rs[i])
RECURSIVE RunFiles(_, _, _)
RunFiles(fs, mode, fill) == IF fs = <<>> THEN <<>>
                            ELSE Sends(fs[1], Default.tenant, mode, fill) \o (IF fill \/ FilePasses(fs[1], mode) THEN RunFiles(Tail(fs), mode, fill) ELSE <<>>)
(* filling in: the file as it is afterwards, without its blank lines *)
Body(r) == (IF r.tenant = <<>> THEN <<>> ELSE <<"--#TENANT = " \o r.ten>>) \o (IF r.via = "http" THEN <<"--#HTTP">> ELSE <<>>) \o <<r.sql>>
Kinds(types) == LET K(c) == IF c \in {"B", "I", "P", "R", "T"} THEN c ELSE "?"
                    Glue[s \in 0..Len(types)] == IF s = 0 THEN "" ELSE Glue[s - 1] \o K(types[s])
                IN Glue[Len(types)]
OfAnswer(r) == IF r.via = "http" THEN [j \in DOMAIN r.ans.rows[1] |-> "T"] ELSE [j \in DOMAIN r.ans.fields |-> TypeChar(r.ans.fields[j])]
SayErr(k, x) == IF x = "" THEN k \o " error" ELSE k \o " error " \o x
AsStatement(r, head) == <<head>> \o Body(r)
AsQuery(r, types, ls) == <<"query " \o Kinds(types)>> \o Body(r) \o <<"----">> \o ls
Wants(r) == [i \in DOMAIN r.want |-> r.want[i].x]
Same(r) == CASE r.kind = "ok" -> AsStatement(r, "statement ok") [] r.kind = "err" -> AsStatement(r, SayErr("statement", r.text))
             [] r.kind = "qerr" -> AsStatement(r, SayErr("query", r.text)) [] r.kind = "query" -> AsQuery(r, r.types, Wants(r))
Filled(r, mode) ==
  IF Skipped(r, mode) THEN Same(r)
  ELSE CASE r.ans.err /\ (r.kind \in {"ok", "query"} \/ ~Fits(r)) -> AsStatement(r, SayErr(IF r.kind \in {"ok", "err"} THEN "statement" ELSE "query", Shown(r)))
         [] r.ans.err -> Same(r)
         [] r.kind \in {"query", "qerr"} /\ NoTable(r) -> AsStatement(r, "statement count 0")
         [] r.kind = "query" -> AsQuery(r, r.types, Got(r))
         [] r.kind = "qerr" -> AsQuery(r, OfAnswer(r), Got(r))
         [] r.kind = "err" /\ NoTable(r) -> AsStatement(r, "statement ok")
         [] OTHER -> Same(r)
RECURSIVE After(_, _, _)
After(rs, mode, fill) == IF rs = <<>> THEN <<>>
                         ELSE (IF rs[1].cond = <<>> THEN <<>> ELSE <<rs[1].cond[1] \o " " \o rs[1].cond[2]>>) \o (IF fill THEN Filled(rs[1], mode) ELSE Same(rs[1])) \o After(Tail(rs), mode, fill)
=============================================================================
