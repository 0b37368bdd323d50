----------------------------- MODULE ProtoWire -----------------------------
(* The protobuf wire format and the message schema nodes, clients and        *)
(* Prometheus / OpenTelemetry / Jaeger / Loki peers speak (ProtoSchema.json).*)
(* Integers are eight little-endian bytes, strings are UTF-8 byte sequences. *)
(* Dec reads any legal encoding (fields in any order, repeated singular      *)
(* fields, packed or unpacked, unknown fields), or fails; Enc is the         *)
(* canonical writer; Tree is the value a reader sees, field by field.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
SchemaFile == JsonDeserialize("ProtoSchema.json")
MsgIx == [nm \in {SchemaFile.msgs[i].name : i \in 1..Len(SchemaFile.msgs)} |-> CHOOSE i \in 1..Len(SchemaFile.msgs) : SchemaFile.msgs[i].name = nm]
EnumIx == [nm \in {SchemaFile.enums[i].name : i \in 1..Len(SchemaFile.enums)} |-> CHOOSE i \in 1..Len(SchemaFile.enums) : SchemaFile.enums[i].name = nm]
Fields(ty) == SchemaFile.msgs[MsgIx[ty]].fields
Short(ty) == SchemaFile.msgs[MsgIx[ty]].short

Err == [ok |-> FALSE]
Ok(v) == [ok |-> TRUE, v |-> v]

(* ------------------------------ primitives ------------------------------ *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
(* the varint at p: its 7-bit groups, or failure *)
Varint(b, p) ==
  LET Q == {q \in p..(p + 9) : q <= Len(b) /\ b[q] < 128} IN
  IF Q = {} THEN Err
  ELSE LET q == CHOOSE x \in Q : \A y \in Q : x <= y IN
       IF q = p + 9 /\ b[q] > 1 THEN Err
       ELSE [ok |-> TRUE, v |-> [i \in 1..(q - p + 1) |-> b[p + i - 1] % 128] \o <<>>, next |-> q + 1]
Bit(g, i) == IF i \div 7 + 1 <= Len(g) THEN (g[i \div 7 + 1] \div Pow2[(i % 7) + 1]) % 2 ELSE 0
RECURSIVE SumBits(_, _, _)
SumBits(g, at, j) == IF j = 8 THEN 0 ELSE Bit(g, at + j) * Pow2[j + 1] + SumBits(g, at, j + 1)

(* TLC evaluates a function body at every application; appending nothing makes it a plain sequence once *)
Bytes8(g) == [k \in 1..8 |-> SumBits(g, 8 * (k - 1), 0)] \o <<>>
Small(g) ==   \* a length or key that fits, or -1
  IF Len(g) > 4 THEN -1
  ELSE (g[1]) + (IF Len(g) > 1 THEN g[2] * 128 ELSE 0) + (IF Len(g) > 2 THEN g[3] * 16384 ELSE 0) + (IF Len(g) > 3 THEN g[4] * 2097152 ELSE 0)
Zero8 == [k \in 1..8 |-> 0]
SignExt(x) == [k \in 1..8 |-> IF k <= 4 THEN x[k] ELSE IF x[4] >= 128 THEN 255 ELSE 0]
ZeroExt(x) == [k \in 1..8 |-> IF k <= 4 THEN x[k] ELSE 0]
UnZig(x, n) ==
  LET h == [k \in 1..8 |-> IF k > n THEN 0 ELSE x[k] \div 2 + (IF k < n THEN 128 * (x[k + 1] % 2) ELSE 0)]
      y == IF x[1] % 2 = 1 THEN [k \in 1..8 |-> 255 - h[k]] ELSE h
  IN y
Zig(x) ==     \* 64-bit
  LET s == [k \in 1..8 |-> ((x[k] * 2) % 256) + (IF k > 1 THEN x[k - 1] \div 128 ELSE 0)]
  IN IF x[8] >= 128 THEN [k \in 1..8 |-> 255 - s[k]] ELSE s
BitB(x, i) == IF i \div 8 + 1 <= 8 THEN (x[i \div 8 + 1] \div Pow2[(i % 8) + 1]) % 2 ELSE 0
RECURSIVE Sum7(_, _, _)
Sum7(x, at, j) == IF j = 7 THEN 0 ELSE BitB(x, at + j) * Pow2[j + 1] + Sum7(x, at, j + 1)
EncVarint(x) ==
  LET g == [k \in 1..10 |-> Sum7(x, 7 * (k - 1), 0)] \o <<>>
      top == CHOOSE k \in 1..10 : (k = 1 \/ g[k] # 0) /\ \A j \in (k + 1)..10 : g[j] = 0
  IN [k \in 1..top |-> IF k < top THEN g[k] + 128 ELSE g[k]] \o <<>>
OfNat8(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256, 0, 0, 0, 0>>
EncNat(n) == IF n < 128 THEN <<n>> ELSE IF n < 16384 THEN <<(n % 128) + 128, n \div 128>> ELSE EncVarint(OfNat8(n))

Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE IF b[i] < 128 THEN Utf8From(b, i + 1)
  ELSE IF b[i] >= 194 /\ b[i] < 224 THEN Cont(b, i + 1) /\ Utf8From(b, i + 2)
  ELSE IF b[i] >= 224 /\ b[i] < 240 THEN Cont(b, i + 1) /\ Cont(b, i + 2) /\ (b[i] = 224 => b[i + 1] >= 160) /\ (b[i] = 237 => b[i + 1] < 160) /\ Utf8From(b, i + 3)
  ELSE IF b[i] >= 240 /\ b[i] < 245 THEN Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3) /\ (b[i] = 240 => b[i + 1] >= 144) /\ (b[i] = 244 => b[i + 1] < 144) /\ Utf8From(b, i + 4)
  ELSE FALSE

(* ------------------------------- decoding ------------------------------- *)
VarKinds == {"int32", "int64", "uint32", "uint64", "sint32", "sint64", "bool", "enum"}
Fix8Kinds == {"double", "fixed64", "sfixed64"}
Fix4Kinds == {"float", "fixed32", "sfixed32"}
WireOf(k) == IF k \in VarKinds THEN 0 ELSE IF k \in Fix8Kinds THEN 1 ELSE IF k \in Fix4Kinds THEN 5 ELSE 2
Scalar(k, raw) ==   \* raw: the 8 bytes read off the wire
  CASE k \in {"int64", "uint64"} \cup Fix8Kinds -> raw
    [] k \in {"int32", "enum"} -> SignExt(raw)
    [] k \in {"uint32", "fixed32", "float"} -> ZeroExt(raw)
    [] k = "sfixed32" -> SignExt(raw)
    [] k = "sint64" -> UnZig(raw, 8)
    [] k = "sint32" -> SignExt(UnZig(ZeroExt(raw), 4))
    [] k = "bool" -> IF raw = Zero8 THEN Zero8 ELSE OfNat8(1)
(* all (number, wire type, payload) triples of a message *)
RECURSIVE Split(_, _)
Split(b, p) ==
  IF p > Len(b) THEN Ok(<<>>)
  ELSE LET key == Varint(b, p) IN
    IF ~key.ok THEN Err
    ELSE LET n == Small(key.v) w == n % 8 f == n \div 8 IN
      IF n < 0 \/ f = 0 \/ w \notin {0, 1, 2, 5} THEN Err
      ELSE LET q == key.next
               one == CASE w = 0 -> LET v == Varint(b, q) IN IF v.ok THEN [ok |-> TRUE, v |-> Bytes8(v.v), next |-> v.next] ELSE Err
                        [] w = 1 -> IF q + 7 <= Len(b) THEN [ok |-> TRUE, v |-> SubSeq(b, q, q + 7), next |-> q + 8] ELSE Err
                        [] w = 5 -> IF q + 3 <= Len(b) THEN [ok |-> TRUE, v |-> SubSeq(b, q, q + 3) \o <<0, 0, 0, 0>>, next |-> q + 4] ELSE Err
                        [] w = 2 -> LET l == Varint(b, q) IN
                                    IF ~l.ok THEN Err
                                    ELSE LET n2 == Small(l.v) IN
                                         IF n2 < 0 \/ l.next + n2 - 1 > Len(b) THEN Err
                                         ELSE [ok |-> TRUE, v |-> SubSeq(b, l.next, l.next + n2 - 1), next |-> l.next + n2]
           IN IF ~one.ok THEN Err
              ELSE LET rest == Split(b, one.next) IN
                   IF ~rest.ok THEN Err ELSE Ok(<<[n |-> f, w |-> w, v |-> one.v]>> \o rest.v)
RECURSIVE Packed(_, _, _)
Packed(k, b, p) ==
  IF p > Len(b) THEN Ok(<<>>)
  ELSE LET one == IF k \in VarKinds THEN (LET v == Varint(b, p) IN IF v.ok THEN [ok |-> TRUE, v |-> Bytes8(v.v), next |-> v.next] ELSE Err)
                  ELSE LET m == IF k \in Fix8Kinds THEN 8 ELSE 4 IN
                       IF p + m - 1 <= Len(b) THEN [ok |-> TRUE, v |-> [i \in 1..8 |-> IF i <= m THEN b[p + i - 1] ELSE 0], next |-> p + m] ELSE Err
       IN IF ~one.ok THEN Err
          ELSE LET rest == Packed(k, b, one.next) IN IF rest.ok THEN Ok(<<Scalar(k, one.v)>> \o rest.v) ELSE Err
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Dec(_, _)
(* one occurrence of field f *)
Item(f, e) ==
  CASE f.k \in VarKinds \cup Fix8Kinds \cup Fix4Kinds ->
         IF e.w = WireOf(f.k) THEN Ok(<<Scalar(f.k, e.v)>>)
         ELSE IF e.w = 2 /\ f.lab = "rep" THEN Packed(f.k, e.v, 1)
         ELSE Err
    [] f.k = "string" -> IF e.w = 2 /\ Utf8From(e.v, 1) THEN Ok(<<e.v>>) ELSE Err
    [] f.k = "bytes" -> IF e.w = 2 THEN Ok(<<e.v>>) ELSE Err
    [] f.k = "msg" -> IF e.w # 2 THEN Err ELSE LET d == Dec(f.t, e.v) IN IF d.ok THEN Ok(<<d.v>>) ELSE Err
IsDefault(f, v) == IF f.k \in {"string", "bytes"} THEN v = <<>> ELSE f.k # "msg" /\ v = Zero8
Default(f) == IF f.k \in {"string", "bytes"} THEN <<>> ELSE Zero8
(* the value of a message: one entry per schema field, a sequence of the values present *)
Dec(ty, b) ==
  LET sp == Split(b, 1) fs == Fields(ty) IN
  IF ~sp.ok THEN Err
  ELSE LET es == sp.v
           it == [i \in 1..Len(es) |-> LET F == {k \in 1..Len(fs) : fs[k].n = es[i].n} IN
                    IF F = {} THEN [k |-> 0, r |-> Ok(<<>>)] ELSE LET k == CHOOSE x \in F : TRUE IN [k |-> k, r |-> Item(fs[k], es[i])]] \o <<>>
       IN IF \E i \in 1..Len(es) : ~it[i].r.ok THEN Err
          ELSE LET same(k) == {i \in 1..Len(es) : it[i].k = k}
                   (* occurrences that count for field k: of a oneof, only the last run of its last variant *)
                   group(k) == IF fs[k].of = "" THEN same(k)
                               ELSE LET G == {i \in 1..Len(es) : it[i].k # 0 /\ fs[it[i].k].of = fs[k].of} IN
                                    {i \in same(k) : \A j \in G : j > i => it[j].k = k}
                   Occ(k) == LET S == group(k) IN SelectSeq([i \in 1..Len(es) |-> IF i \in S THEN <<i>> ELSE <<>>], LAMBDA x : x # <<>>)
                   val(k) == LET o == Occ(k) IN
                     IF o = <<>> THEN <<>>
                     ELSE IF fs[k].lab = "rep" THEN Flat([j \in 1..Len(o) |-> it[o[j][1]].r.v])
                     ELSE IF fs[k].k = "msg" THEN <<Dec(fs[k].t, Flat([j \in 1..Len(o) |-> es[o[j][1]].v])).v>>
                     ELSE it[o[Len(o)][1]].r.v
               IN Ok([k \in 1..Len(fs) |->
                       LET v == val(k) IN
                       IF fs[k].lab = "one" /\ fs[k].of = "" /\ v # <<>> /\ IsDefault(fs[k], v[1]) THEN <<>> ELSE v] \o <<>>)

(* ------------------------------- encoding ------------------------------- *)
Key(f, w) == EncNat(f.n * 8 + w)
EncScalar(k, v) ==
  CASE k \in {"int32", "int64", "uint32", "uint64", "bool", "enum"} -> EncVarint(v)
    [] k = "sint64" -> EncVarint(Zig(v))
    [] k = "sint32" -> EncVarint(ZeroExt(Zig(v)))
    [] k \in Fix8Kinds -> v
    [] k \in Fix4Kinds -> SubSeq(v, 1, 4)
RECURSIVE Enc(_, _)
Len2(b) == EncNat(Len(b)) \o b
EncField(f, vs) ==
  IF vs = <<>> THEN <<>>
  ELSE CASE f.k = "msg" -> Flat([i \in 1..Len(vs) |-> Key(f, 2) \o Len2(Enc(f.t, vs[i]))])
         [] f.k \in {"string", "bytes"} -> Flat([i \in 1..Len(vs) |-> Key(f, 2) \o Len2(vs[i])])
         [] OTHER -> IF f.lab = "rep" THEN Key(f, 2) \o Len2(Flat([i \in 1..Len(vs) |-> EncScalar(f.k, vs[i])]))
                     ELSE Key(f, WireOf(f.k)) \o EncScalar(f.k, vs[1])
(* fields in number order; a oneof stands at the place of its lowest number *)
OfMin(fs, k) == IF fs[k].of = "" THEN fs[k].n ELSE CHOOSE m \in {fs[j].n : j \in {x \in 1..Len(fs) : fs[x].of = fs[k].of}} : \A j \in 1..Len(fs) : fs[j].of = fs[k].of => m <= fs[j].n
RECURSIVE EncIn(_, _, _)
EncIn(fs, v, todo) ==
  IF todo = {} THEN <<>>
  ELSE LET k == CHOOSE x \in todo : \A y \in todo : OfMin(fs, x) < OfMin(fs, y) \/ (OfMin(fs, x) = OfMin(fs, y) /\ x <= y)
       IN EncField(fs[k], v[k]) \o EncIn(fs, v, todo \ {k})
Enc(ty, v) == EncIn(Fields(ty), v, 1..Len(Fields(ty)))

(* ------------------------ what a reader of the message sees ------------- *)
FloatText == << <<<<0,0,0,0,0,0,0,0>>, "0.0">>, <<<<0,0,0,0,0,0,224,63>>, "0.5">>, <<<<0,0,0,0,0,0,244,191>>, "-1.25">>, <<<<0,0,0,0,0,0,89,64>>, "100.0">>,
                <<<<0,0,0,0,0,0,240,127>>, "inf">>, <<<<0,0,0,0,0,0,248,127>>, "NaN">> >>
FloatOf(v) == LET F == {i \in 1..Len(FloatText) : FloatText[i][1] = v} IN IF F = {} THEN "?" ELSE FloatText[CHOOSE i \in F : TRUE][2]
RECURSIVE Tree(_, _)
One(f, v) ==
  CASE f.k = "msg" -> Tree(f.t, v)
    [] f.k = "string" -> <<"s", v>>
    [] f.k = "bytes" -> <<"l", [i \in 1..Len(v) |-> <<"n", OfNat8(v[i])>>]>>
    [] f.k = "bool" -> <<"b", v # Zero8>>
    [] f.k \in {"double", "float"} -> <<"d", FloatOf(v)>>
    [] f.k = "enum" -> LET vs == SchemaFile.enums[EnumIx[f.t]].vals
                           H == {i \in 1..Len(vs) : OfNat8(vs[i].v) = v} IN
                       IF H = {} THEN <<"n", v>> ELSE <<"e", vs[CHOOSE i \in H : TRUE].name>>
    [] OTHER -> <<"n", v>>
OneOf(fs, v, of) ==
  LET H == {k \in 1..Len(fs) : fs[k].of = of /\ v[k] # <<>>} IN
  IF H = {} THEN <<"none">> ELSE LET k == CHOOSE x \in H : TRUE IN <<"some", <<"v", fs[k].var, One(fs[k], v[k][1])>>>>
FieldTree(f, vs) ==
  CASE f.lab = "rep" -> <<"l", [i \in 1..Len(vs) |-> One(f, vs[i])]>>
    [] f.lab = "opt" -> IF vs = <<>> THEN <<"none">> ELSE <<"some", One(f, vs[1])>>
    [] OTHER -> One(f, IF vs = <<>> THEN Default(f) ELSE vs[1])
Tree(ty, v) ==
  LET fs == Fields(ty) IN
  <<"S", Short(ty), {<<fs[k].name, FieldTree(fs[k], v[k])>> : k \in {x \in 1..Len(fs) : fs[x].of = ""}}
                    \cup {<<fs[k].of, OneOf(fs, v, fs[k].of)>> : k \in {x \in 1..Len(fs) : fs[x].of # ""}}>>
(* the same shape from a recorded JSON tree: struct members become sets *)
RECURSIVE Norm(_)
Norm(t) ==
  CASE t[1] = "S" -> <<"S", t[2], {<<t[3][i][1], Norm(t[3][i][2])>> : i \in 1..Len(t[3])}>>
    [] t[1] = "l" -> <<"l", [i \in 1..Len(t[2]) |-> Norm(t[2][i])]>>
    [] t[1] = "some" -> <<"some", Norm(t[2])>>
    [] t[1] = "v" -> <<"v", t[2], Norm(t[3])>>
    [] OTHER -> t
Members(t) == Len(t[3])
=============================================================================
