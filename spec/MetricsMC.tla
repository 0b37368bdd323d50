----------------------------- MODULE MetricsMC -----------------------------
EXTENDS Metrics, TLC, Json
VARIABLE ev
St == <<regs, mets, hm, cells, hr, once>>
A == <<<<"a", "1">>>>
B == <<<<"b", "2">>>>
MCInit == regs = <<[parent |-> 0, labels |-> {}]>> /\ mets = <<>> /\ hm = <<>> /\ cells = <<>> /\ hr = <<>> /\ once = {} /\ ret = <<>> /\ ev = [op |-> "new", labels |-> <<>>]
MCNext ==
  \/ \E r \in DOMAIN regs, ls \in {A, B} : Len(regs) < 3 /\ Sub(r, ls) /\ ev' = [op |-> "sub", reg |-> r, labels |-> ls]
  \/ \E r \in DOMAIN regs, k \in {"counter", "avg", "hist"} : Len(hm) < 2 /\ Metric(r, k, "h", k, IF k = "hist" THEN <<5, 1>> ELSE <<>>)
        /\ ev' = [op |-> "metric", reg |-> r, name |-> k, help |-> "h", kind |-> k, buckets |-> IF k = "hist" THEN <<5, 1>> ELSE <<>>, direct |-> FALSE]
  \/ \E m \in DOMAIN hm, ls \in {<<>>, B} : Len(hr) < 2 /\ Recorder(m, ls) /\ ev' = [op |-> "recorder", m |-> m, labels |-> ls]
  \/ \E m \in DOMAIN hm, ls \in {<<>>, B} : DropLabels(m, ls) /\ ev' = [op |-> "remove", m |-> m, labels |-> ls]
  \/ \E r \in DOMAIN hr, v \in {1, 3, 9} : (cells[hr[r]].v < 4) /\ Rec(r, v, 1) /\ ev' = [op |-> "rec", r |-> r, v |-> v, c |-> 1]
  \/ \E r \in DOMAIN regs : Report(r) /\ ev' = [op |-> "report", reg |-> r]
  \/ \E m \in DOMAIN hm : ReportMetric(m) /\ ev' = [op |-> "reportm", m |-> m]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev>>
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
Short == Len(hm) + Len(regs) <= 4 /\ TLCGet("level") < 8
(* reporting does not change what a later report of plain metrics shows *)
ReportPure == [][ev'.op = "report" => \A c \in DOMAIN cells : cells[c].kind # "avg" => cells'[c] = cells[c]]_<<vars, ev>>
=============================================================================
