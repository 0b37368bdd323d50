---------------------------- MODULE CodecsMC ----------------------------
EXTENDS Codecs, TLC, Json
CONSTANT MaxLen
VARIABLE ev
Cells == {<<>>} \cup {<<v>> : v \in 0..(Ring - 1)}
MInit == Init /\ ev = [op |-> "init"]
MNext == \E x \in Cells : Len(col) < MaxLen /\ Add(x) /\ ev' = [op |-> "add", cell |-> x]
MSpec == MInit /\ [][MNext]_<<vars, ev>>
View == <<form, col>>
(* every column is emitted once, with the form its block takes *)
EdgeOut == form' = "ints" => PrintT("EDGE " \o ToJson([f |-> col, ev |-> [cells |-> col', kind |-> block'.kind, times |-> Pack("times", col').kind], t |-> col']))
=============================================================================
