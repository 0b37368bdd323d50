---------------------------- MODULE DomainsMC ----------------------------
\* every set of time ranges, every range: push, intersect, exclude, ask
EXTENDS Domains, Json
VARIABLE ev
St == trs
MCInit == Init /\ ev = [op |-> "trs"]
\* six ends suffice: two at each end of the line, two in the middle
E7 == {1, 2, 5, 6, 10, 11}
Rs == {r \in E7 \X E7 : r[1] <= r[2]}
MCNext == \E r \in Rs :
  \/ Push(r) /\ ev' = [op |-> "push", r |-> r]
  \/ Inter(r) /\ ev' = [op |-> "inter", r |-> r]
  \/ Excl(r) /\ ev' = [op |-> "excl", r |-> r]
  \/ UNCHANGED vars /\ ev' = [op |-> "ask", r |-> r]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev>>
Closed == trs \subseteq Line
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
=============================================================================
