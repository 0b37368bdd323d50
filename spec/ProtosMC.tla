------------------------------ MODULE ProtosMC ------------------------------
(* A message grows by one field occurrence at a time, in any order: what is  *)
(* read must be what the canonical writer writes back, unknown fields are    *)
(* skipped, and a shortened text never reads as something longer.            *)
EXTENDS ProtoWire
CONSTANTS Depth
VARIABLES ty, buf, n
vars == <<ty, buf, n>>
Types == {"kv_service::RaftWriteCommand", "kv_service::BatchBytesResponse", "prometheus::BucketSpan", "prometheus::Sample", "kv_service::CompactVnodeRequest", "kv_service::UpdateSetValue", "prometheus::LabelMatcher", "prometheus::ReadRequest"}
Ints == {Zero8, OfNat8(1), OfNat8(300), [k \in 1..8 |-> 255], <<0,0,0,128,0,0,0,0>>, <<255,255,255,127,0,0,0,0>>}
Strs == {<<>>, <<97>>, <<195, 169>>}
Occurs(f) ==
  CASE f.k \in VarKinds -> {Key(f, 0) \o EncVarint(v) : v \in Ints} \cup (IF f.lab = "rep" THEN {Key(f, 2) \o Len2(EncVarint(v) \o EncVarint(OfNat8(7))) : v \in Ints} ELSE {})
    [] f.k \in Fix8Kinds -> {Key(f, 1) \o FloatText[i][1] : i \in {1, 2, 3}}
    [] f.k \in {"string", "bytes"} -> {Key(f, 2) \o Len2(s) : s \in Strs}
    [] f.k = "msg" -> {Key(f, 2) \o Len2(<<>>)} \cup {Key(f, 2) \o Len2(Key(g, 2) \o Len2(<<97, 98>>)) : g \in {Fields(f.t)[k] : k \in {x \in 1..Len(Fields(f.t)) : Fields(f.t)[x].k \in {"string", "bytes"}}}}
    [] OTHER -> {}
Unknown == {EncNat(60 * 8) \o <<5>>, EncNat(61 * 8 + 2) \o <<2, 1, 2>>, EncNat(62 * 8 + 5) \o <<1, 2, 3, 4>>}
Init == ty \in Types /\ buf = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ ty' = ty
        /\ \/ \E k \in 1..Len(Fields(ty)) : \E o \in Occurs(Fields(ty)[k]) : buf' = buf \o o
           \/ \E o \in Unknown : buf' = buf \o o
D == Dec(ty, buf)
Reads == D.ok
RoundTrip == LET e == Enc(ty, D.v) IN Dec(ty, e) = D /\ Enc(ty, Dec(ty, e).v) = e
SkipsUnknown == \A u \in Unknown : Dec(ty, buf \o u) = D /\ Dec(ty, u \o buf) = D
(* field order does not matter for reading back what the canonical writer wrote *)
Halves == \A i \in 1..Len(buf) : LET a == Dec(ty, SubSeq(buf, 1, i - 1)) IN a.ok => (Dec(ty, SubSeq(buf, i, Len(buf))).ok)
=============================================================================
