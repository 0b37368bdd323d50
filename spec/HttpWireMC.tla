----------------------------- MODULE HttpWireMC -----------------------------
(* Two bodies in flight on one buffer, any order of encodes and decodes.     *)
EXTENDS HttpWire, TLC, Json
VARIABLES ev, n
St == <<sent, n>>
Bodies == {<<>>, <<<<7, 3>>>>, <<<<7, 2>>, <<0, 5000>>, <<7, 1>>>>}
Ks == {"gzip", "snappy"}
MCInit == Init /\ n = 0 /\ ev = [op |-> "start"]
MCNext == /\ n < 4 /\ n' = n + 1
          /\ \/ \E id \in 1..2, k \in Ks, d \in Bodies : Encode(id, k, d) /\ ev' = [op |-> "enc", id |-> id, kind |-> k, data |-> d]
             \/ \E id \in DOMAIN sent : LET s == sent[id] IN Decode(id, s.kind, 0, TRUE, s.data) /\ ev' = [op |-> "dec", id |-> id, kind |-> s.kind, cut |-> 0]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev, n>>
(* an encode of one body changes no other *)
Isolated == [][\A id \in DOMAIN sent : (ev'.op = "enc" /\ ev'.id # id) => sent'[id] = sent[id]]_<<vars, ev, n>>
(* the text of a context reads back as that context, and nothing shorter does *)
Ids == {<<>>, <<1>>, <<15, 0>>, <<10, 11, 12>>}
ASSUME RoundTrip == \A a \in Ids, b \in Ids : ParseSpan(SpanText(<<a, b>>)) = <<<<a, b>>>>
ASSUME OneText == \A a \in Ids, b \in Ids, c \in Ids, d \in Ids : SpanText(<<a, b>>) = SpanText(<<c, d>>) => <<a, b>> = <<c, d>>
ASSUME PrefixOk == \A a \in Bodies : IsPrefix(<<>>, a) /\ IsPrefix(a, a)
EdgeOut == PrintT("EDGE " \o ToJson([f |-> [s |-> sent, n |-> n], ev |-> ev', t |-> [s |-> sent', n |-> n']]))
=============================================================================
