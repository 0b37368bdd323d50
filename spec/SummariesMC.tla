---------------------------- MODULE SummariesMC ----------------------------
EXTENDS Summaries, TLC, Json
VARIABLE ev
St == <<ins, said, size>>
Keys == {<<1>>, <<2>>, <<>>}
(* a two-hash filter of eight bits: the design that the guarantee rests on *)
MCInit == ins = {} /\ said = {} /\ size = 1 /\ next = 0 /\ ret = <<>> /\ ev = [op |-> "bnew"]
MCNext == \/ \E k \in Keys : BInsert(k) /\ ev' = [op |-> "binsert", k |-> k]
          \/ \E k \in Keys, a \in BOOLEAN : BAsk(k, a) /\ ev' = [op |-> "bask", k |-> k]
          \/ BSave /\ ev' = [op |-> "bsave", via |-> "bytes"]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev>>
(* every inserted key is answered positively from then on *)
Positive == [][\A k \in Keys : (ev'.op = "bask" /\ ev'.k = k /\ k \in ins) => ret' = <<TRUE>>]_<<vars, ev>>
Withdrawn == [][\A k \in Keys : (ev'.op = "bask" /\ ev'.k = k /\ k \in said) => ret' = <<TRUE>>]_<<vars, ev>>
EdgeOut == PrintT("EDGE " \o ToJson([f |-> [ins |-> ins], ev |-> ev', t |-> [ins |-> ins']]))
=============================================================================
