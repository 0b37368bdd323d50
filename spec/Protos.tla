------------------------------ MODULE Protos -------------------------------
(* Points carried in flatbuffers, what the accessors say about them, and the *)
(* gRPC clients: bounded message sizes, a deadline, optional gzip.           *)
EXTENDS ProtoWire

(* --------------------- flatbuffers: reading the bytes ------------------- *)
B(b, p) == b[p + 1]      \* 0-based offsets
U16(b, p) == B(b, p) + 256 * B(b, p + 1)
U32(b, p) == U16(b, p) + 65536 * B(b, p + 2) + 16777216 * B(b, p + 3)
I32(b, p) == IF B(b, p + 3) < 128 THEN U32(b, p) ELSE 0 - ((255 - B(b, p)) + 256 * (255 - B(b, p + 1)) + 65536 * (255 - B(b, p + 2)) + 16777216 * (255 - B(b, p + 3)) + 1)
Root(b) == U32(b, 0)
Slot(b, t, i) ==         \* absolute position of slot i of table t, or -1
  LET vt == t - I32(b, t) o == 4 + 2 * i IN
  IF o >= U16(b, vt) THEN -1 ELSE LET x == U16(b, vt + o) IN IF x = 0 THEN -1 ELSE t + x
Follow(b, p) == p + U32(b, p)
Bs(b, q) == [i \in 1..U32(b, q) |-> B(b, q + 3 + i)]                    \* vector of bytes at q
OptStr(b, t, i) == LET p == Slot(b, t, i) IN IF p < 0 THEN <<>> ELSE <<Bs(b, Follow(b, p))>>
Wide(b, q) == [i \in 1..U32(b, q) |-> [k \in 1..8 |-> B(b, q + 4 + 8 * (i - 1) + (8 - k))]]   \* 8-byte values, most significant first
Offs(b, q) == [i \in 1..U32(b, q) |-> Follow(b, q + 4 + 4 * (i - 1))]    \* vector of offsets
OptVec(b, t, i, R(_, _)) == LET p == Slot(b, t, i) IN IF p < 0 THEN <<>> ELSE <<R(b, Follow(b, p))>>
Strs(b, q) == LET o == Offs(b, q) IN [i \in 1..Len(o) |-> Bs(b, o[i])]
Int4(b, t, i) == LET p == Slot(b, t, i) IN IF p < 0 THEN 0 ELSE I32(b, p)
FbVals(b, t) == [f |-> OptVec(b, t, 0, Wide), i |-> OptVec(b, t, 1, Wide), u |-> OptVec(b, t, 2, Wide), b |-> OptVec(b, t, 3, Bs), s |-> OptVec(b, t, 4, Strs)]
FbCol(b, t) == [name |-> OptStr(b, t, 0), ct |-> Int4(b, t, 1), ft |-> Int4(b, t, 2),
                vals |-> LET p == Slot(b, t, 3) IN IF p < 0 THEN <<>> ELSE <<FbVals(b, Follow(b, p))>>,
                nb |-> OptVec(b, t, 4, Bs)]
FbCols(b, q) == LET o == Offs(b, q) IN [i \in 1..Len(o) |-> FbCol(b, o[i])]
FbTab(b, t) == [tab |-> OptStr(b, t, 0), cols |-> OptVec(b, t, 1, FbCols),
                rows |-> LET p == Slot(b, t, 2) IN IF p < 0 THEN 0 ELSE U32(b, p)]
FbTabs(b, q) == LET o == Offs(b, q) IN [i \in 1..Len(o) |-> FbTab(b, o[i])]
FbPoints(b) == LET t == Root(b) IN [db |-> OptStr(b, t, 0), tables |-> OptVec(b, t, 1, FbTabs)]

(* ------------- what the accessors must say about such points ------------ *)
Res(o, e) == IF o = <<>> THEN <<"err", e>> ELSE <<"ok", o[1]>>
Arr(vals, k) == IF vals = <<>> THEN <<"err", "ColumnMissingValues">> ELSE <<"ok", IF vals[1][k] = <<>> THEN <<>> ELSE vals[1][k][1]>>
ArrLen(vals, k) == IF vals = <<>> THEN <<"err", "ColumnMissingValues">> ELSE <<"ok", IF vals[1][k] = <<>> THEN 0 ELSE Len(vals[1][k][1])>>
ColView(c) == [name |-> Res(c.name, "ColumnMissingNames"), ct |-> c.ct, ft |-> c.ft, nb |-> Res(c.nb, "ColumnMissingNullbits"),
  i |-> Arr(c.vals, "i"), il |-> ArrLen(c.vals, "i"), u |-> Arr(c.vals, "u"), ul |-> ArrLen(c.vals, "u"), f |-> Arr(c.vals, "f"), fl |-> ArrLen(c.vals, "f"),
  b |-> Arr(c.vals, "b"), bl |-> ArrLen(c.vals, "b"), s |-> Arr(c.vals, "s"), sl |-> ArrLen(c.vals, "s")]
ListRes(o, e, V(_)) == IF o = <<>> THEN <<"err", e>> ELSE <<"ok", [i \in 1..Len(o[1]) |-> V(o[1][i])]>>
TabView(t) == [tab |-> Res(t.tab, "TableMissingName"), rows |-> t.rows, cols |-> ListRes(t.cols, "TableMissingColumns", ColView)]
View(p) == [db |-> Res(p.db, "PointsMissingDatabaseName"), tables |-> ListRes(p.tables, "PointsMissingTables", TabView)]
Or(o, d) == IF o = <<>> THEN d ELSE o[1]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
ShownTab(t) ==   \* the listing: the first line of a table that has no columns carries the placeholder
  IF t.cols = <<>> THEN <<"Table: " \o Or(t.tab, "{!BAD_TABLE_NAME}") \o "{!BAD_TABLE_POINTS}">>
  ELSE <<"Table: " \o Or(t.tab, "{!BAD_TABLE_NAME}")>> \o [i \in 1..Len(t.cols[1]) |-> "Column: " \o Or(t.cols[1][i].name, "{!BAD_COLUMN_NAME}")]
Shown(p) == <<"Database: " \o Or(p.db, "{!BAD_DB_NAME}")>>
            \o (IF p.tables = <<>> THEN <<"No tables">> ELSE Cat([i \in 1..Len(p.tables[1]) |-> ShownTab(p.tables[1][i])]))
(* the same points with texts as byte sequences, as the buffer holds them *)
CONSTANT Ascii(_)
OA(o) == IF o = <<>> THEN <<>> ELSE <<Ascii(o[1])>>
AVals(v) == [v EXCEPT !.s = IF @ = <<>> THEN <<>> ELSE <<[i \in 1..Len(@[1]) |-> Ascii(@[1][i])]>>]
ACol(c) == [name |-> OA(c.name), ct |-> c.ct, ft |-> c.ft, nb |-> c.nb, vals |-> IF c.vals = <<>> THEN <<>> ELSE <<AVals(c.vals[1])>>]
ATab(t) == [tab |-> OA(t.tab), rows |-> t.rows, cols |-> IF t.cols = <<>> THEN <<>> ELSE <<[i \in 1..Len(t.cols[1]) |-> ACol(t.cols[1][i])]>>]
APoints(p) == [db |-> OA(p.db), tables |-> IF p.tables = <<>> THEN <<>> ELSE <<[i \in 1..Len(p.tables[1]) |-> ATab(p.tables[1][i])]>>]

(* ----------------- points built from columns of values ------------------ *)
FT == [f |-> 0, i |-> 1, u |-> 2, b |-> 3, s |-> 4]
NoVals == [f |-> <<>>, i |-> <<>>, u |-> <<>>, b |-> <<>>, s |-> <<>>]
Built(in) ==   \* the set of columns; the bitmap is judged separately
  {[name |-> <<in.tags[k][1]>>, ct |-> 1, ft |-> FT.s, vals |-> <<[NoVals EXCEPT !.s = <<in.tags[k][2]>>]>>] : k \in 1..Len(in.tags)}
  \cup {[name |-> <<in.fields[k][1]>>, ct |-> 2, ft |-> FT[in.fields[k][2]],
         vals |-> <<[NoVals EXCEPT ![in.fields[k][2]] = <<in.vals[k]>>]>>] : k \in 1..Len(in.fields)}
  \cup {[name |-> <<"time">>, ct |-> 0, ft |-> FT.i, vals |-> <<[NoVals EXCEPT !.i = <<in.time>>]>>]}
AllSet(nb, n) == /\ Len(nb) = (n + 7) \div 8
                 /\ \A r \in 0..(n - 1) : (nb[r \div 8 + 1] \div Pow2[(r % 8) + 1]) % 2 = 1
NoNb(c) == [name |-> c.name, ct |-> c.ct, ft |-> c.ft, vals |-> c.vals]
BuiltOk(in, p) ==
  /\ p.db = <<Ascii(in.db)>> /\ p.tables # <<>> /\ Len(p.tables[1]) = 1
  /\ LET t == p.tables[1][1] IN
     /\ t.tab = <<Ascii(in.tab)>> /\ t.rows = Len(in.time) /\ t.cols # <<>>
     /\ Len(t.cols[1]) = Len(in.tags) + Len(in.fields) + 1
     /\ {NoNb(t.cols[1][i]) : i \in 1..Len(t.cols[1])} = {[name |-> OA(c.name), ct |-> c.ct, ft |-> c.ft, vals |-> <<AVals(c.vals[1])>>] : c \in Built(in)}
     /\ \A i \in 1..Len(t.cols[1]) : t.cols[1][i].nb # <<>> /\ AllSet(t.cols[1][i].nb[1], Len(in.time))

(* -------------------------------- calls --------------------------------- *)
VLen(n) == Len(EncNat(n))
Fld(n) == IF n = 0 THEN 0 ELSE 1 + VLen(n) + n      \* a length-delimited field of n bytes
ReqLen(m, n) == CASE m = "raft_vote" \/ m = "raft_snapshot" \/ m = "raft_append" -> 2 + Fld(n)
                  [] m = "raft_write" -> LET i == Fld(n) IN 1 + VLen(i) + i
                  [] OTHER -> Fld(n)
CodeOf(m) == CASE m = "ping" -> 1 [] m = "download" -> 12 [] m = "query" -> 2 [] m = "raft_write" -> 3 [] m = "admin" -> 4 [] m = "raft_vote" -> 5 [] m = "raft_snapshot" -> 6 [] m = "raft_append" -> 7
RespLen(m, n) == IF m = "download" THEN 2 + Fld(n) ELSE 2 + Fld(n)
(* the bound applies to what is sent; text of 26 random letters packs to 58.8 % at best, and sizes near the bound are left open *)
Fits(gz, len, max) == IF gz THEN (len * 5) \div 8 + 60 <= max ELSE len <= max
TooBig(gz, len, max) == IF gz THEN (len \div 100) * 58 > max ELSE len > max
CallOk(c) == Fits(c.gzip, ReqLen(c.method, c.req), c.max) /\ Fits(c.gzip, RespLen(c.method, c.resp), c.max) /\ c.delay = 0 /\ ~c.fail
CallBad(c) == TooBig(c.gzip, ReqLen(c.method, c.req), c.max) \/ TooBig(c.gzip, RespLen(c.method, c.resp), c.max) \/ c.delay > c.timeout \/ c.fail
SeenOk(c, s) == s.same /\ s.enc = (IF c.gzip THEN "gzip" ELSE "identity") /\ (("gzip" \in {s.acc[i] : i \in 1..Len(s.acc)}) <=> c.gzip)
Call(c, out) ==
  /\ \A i \in 1..Len(out.seen) : SeenOk(c, out.seen[i])
  /\ TooBig(c.gzip, ReqLen(c.method, c.req), c.max) => out.seen = <<>>
  /\ CallOk(c) => (out.res = "ok" /\ out.same /\ out.code = CodeOf(c.method) /\ Len(out.seen) = 1)
  /\ CallBad(c) => out.res = "err"
  /\ out.res \in {"ok", "err"}
(* the ping the meta node uses to find out whether a data node is alive *)
PingBody(b) == LET t == Root(b) p == Slot(b, t, 0) IN p >= 0 /\ U32(b, Follow(b, p)) = 0
Ping(c, out) ==
  /\ out.res = (IF c.to = "live" /\ ~c.fail /\ c.delay < 3000 THEN "ok" ELSE "err") /\ out.msg
  /\ c.to = "live" => (Len(out.seen) = 1 /\ out.seen[1][1] = 1 /\ PingBody(Tail(out.seen[1])))
  /\ c.to # "live" => out.seen = <<>>
=============================================================================
