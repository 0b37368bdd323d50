------------------------------ MODULE LinesMC ------------------------------
\* Written text means one thing only; arriving in pieces it means the same; small documents and feeds, all of them
EXTENDS Lines
CONSTANTS MaxLen
VARIABLES got, rest, all
mvars == <<got, rest, all>>
\* a feed of "x", carriage return and line feed in pieces of up to two
Pieces == UNION {[1..n -> {120, 13, 10}] : n \in 1..2}
MCInit == got = <<>> /\ rest = <<>> /\ all = <<>>
MCNext == \E p \in Pieces : /\ Len(all) + Len(p) <= MaxLen
            /\ LET w == Whole(rest \o p) IN got' = got \o w.ls /\ rest' = w.rest
            /\ all' = all \o p
MCSpec == MCInit /\ [][MCNext]_mvars
\* what was understood is what the text as a whole says, and nothing is lost
Same == LET w == Whole(all) IN got = w.ls /\ rest = w.rest
NoEnd == 10 \notin {rest[k] : k \in DOMAIN rest}

Nm == {<<97>>, <<32>>, <<44>>, <<61>>, <<97, 32>>, <<44, 97>>, <<61, 61>>}
Ln(t, g, f, v, ts, sp) == [junk |-> <<>>, table |-> t, tags |-> g, sp1 |-> 1, fields |-> <<<<f, v>>>>, sp2 |-> IF ts = <<>> THEN sp ELSE 1, ts |-> ts, end |-> <<>>]
Docs == {<<Ln(t, g, f, v, ts, 0)>> : t \in {n \in Nm : 61 \notin {n[k] : k \in DOMAIN n}}, g \in {<<>>} \cup {<<<<a, b>>>> : a \in Nm, b \in Nm}, f \in Nm,
         v \in {<<49>>, <<49, 105>>, <<34, 32, 34>>, <<34, 44, 97, 61, 34>>}, ts \in {<<>>, <<53>>}}
\* two documents that mean different things are not written alike
ASSUME LET now == <<TRUE, <<55>>>> IN Cardinality({Render(d) : d \in Docs}) = Cardinality({Meant(d, now) : d \in Docs})
\* a number is the same however it is written
ASSUME Float(<<49,48>>) = Float(<<49,101,49>>) /\ Float(<<48,46,49>>) = Float(<<49,101,45,49>>) /\ Float(<<49,46,53,48>>) = Float(<<49,53,101,45,49>>) /\ Float(<<48>>) # Float(<<45,48>>)
ASSUME IntOf(<<49>> \o IMax) = Bad /\ IntOf(IMax) # Bad /\ IntOf(IMin) = Bad /\ IntOf(<<45>> \o IMin) # Bad /\ UInt(UMax) # Bad /\ UInt(<<50>> \o Tail(UMax)) = Bad
=============================================================================
