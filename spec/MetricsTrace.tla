---------------------------- MODULE MetricsTrace ----------------------------
EXTENDS Metrics, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == /\ l = 1 /\ regs = <<>> /\ mets = <<>> /\ hm = <<>> /\ cells = <<>> /\ hr = <<>> /\ once = {} /\ ret = <<>>
E == Trace[l]
Is(o) == E.op = o
Plain(x, lab) == <<x.ty, x.help, x.name, x.part, lab, x.le, x.v>>
(* every sample once, except that an explicit unbounded bucket is the closing bucket too *)
Shown == LET seen == [i \in DOMAIN E.ret |-> Plain(E.ret[i], Pairs(E.ret[i].labels))]
             want == {<<x.src, Plain(x, x.labels)>> : x \in ret'}
         IN /\ Len(E.ret) = Cardinality(ret')
            /\ Range(seen) = {w[2] : w \in want}
            /\ \A p \in Range(seen) : Cardinality({i \in DOMAIN seen : seen[i] = p}) = Cardinality({w \in want : w[2] = p})
(* the latency buckets of a duration histogram that was not told otherwise, in microseconds; -1: no bound *)
DefaultLatency == <<1000, 2500, 5000, 10000, 25000, 50000, 100000, 250000, 500000, 1000000, 2500000, 5000000, 10000000, -1>>
DefaultLatencyText == <<"0.001", "0.0025", "0.005", "0.01", "0.025", "0.05", "0.1", "0.25", "0.5", "1", "2.5", "5", "10", "+Inf">>
Holder(v) == CHOOSE i \in DOMAIN DefaultLatency : (DefaultLatency[i] = -1 \/ v <= DefaultLatency[i]) /\ \A j \in 1..(i - 1) : v > DefaultLatency[j]
RECURSIVE Tri(_, _)
Tri(n, m) == IF n = 0 THEN 0 ELSE Tri(n - 1, m) + ((n - 1) % m)
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("new") /\ New(E.labels)
     \/ Is("sub") /\ Sub(E.reg, E.labels) /\ ret' = <<E.ret>>
     \/ Is("labels") /\ Pairs(E.ret) = regs[E.reg].labels /\ Len(E.ret) = Cardinality(regs[E.reg].labels) /\ UNCHANGED vars
     \/ Is("subs") /\ Pairs(E.ret) = {i \in DOMAIN regs : regs[i].parent = E.reg} /\ UNCHANGED vars
     \/ Is("metric") /\ Metric(E.reg, E.name, E.help, E.kind, E.buckets) /\ E.m = Len(hm')
     \/ Is("recorder") /\ Recorder(E.m, E.labels) /\ E.r = Len(hr')
     \/ Is("remove") /\ DropLabels(E.m, E.labels)
     \/ Is("rec") /\ Rec(E.r, E.v, E.c) /\ ret' = E.ret
     \/ Is("fetch") /\ Fetch(E.r) /\ ret' = E.ret
     \/ Is("onetime") /\ Once(E.reg, E.name, E.help, E.mlabels, E.labels, E.value) /\ E.gauge = E.value
     \/ Is("report") /\ Report(E.reg) /\ Shown
     \/ Is("reportm") /\ ReportMetric(E.m) /\ Shown
     \/ Is("defaults") /\ E.total = E.v /\ E.buckets = [i \in DOMAIN DefaultLatency |-> <<DefaultLatency[i], IF Holder(E.v) = i THEN 1 ELSE 0>>]
          /\ E.les = DefaultLatencyText /\ UNCHANGED vars
     \/ Is("label") /\ (\A i \in DOMAIN E.ok : E.ok[i] = E.legal) /\ UNCHANGED vars
     \/ Is("storm") /\ E.c = E.per * ((E.threads * (E.threads + 1)) \div 2) /\ E.dsec = 2 * E.threads * E.per
                    /\ E.hn = E.threads * E.per /\ E.hsum = E.threads * Tri(E.per, 20) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
