---------------------------- MODULE ObserveTrace ----------------------------
(* Each recorded run is one process: its steps, then what it left behind.    *)
EXTENDS Observe, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
SetOf(s) == {s[i] : i \in DOMAIN s}
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Step ==
  \/ E.do \in {"init", "preset"} /\ SetUp([level |-> LevelOf(E.level), sub |-> E.sub, file |-> E.file, rotation |-> IF E.do = "preset" THEN "daily" ELSE E.rotation])
  \/ E.do = "log" /\ Log(E.target, E.level, E.msg)
  \/ E.do = "tracing" /\ Tracing(E.path)
  \/ E.do = "span" /\ Finish(Spans(E.name, E.trace, {Digit[i] : i \in 1..E.kids}))
  \/ E.do = "flush" /\ Flush
  \/ E.do \in {"settle", "minute"} /\ UNCHANGED vars
Old == IF E.prelog = "" THEN <<>> ELSE <<<<"?", "?", E.prelog>>>>
Outcome ==
  /\ E.code = 0 /\ E.other = 0 /\ E.err = lines
  /\ IF logging = <<>> THEN E.shapes = <<>> /\ E.file = <<>> /\ ~E.warned
     ELSE LET c == logging[1] IN
          /\ E.sub = c.sub /\ E.prefix = c.file /\ E.warned = (c.rotation \notin Rotations)
          /\ E.shapes # <<>> /\ \A i \in DOMAIN E.shapes : E.shapes[i] = Shape(c.rotation)
          /\ IF E.max = <<>> THEN E.file = Old \o lines ELSE Len(E.shapes) <= E.max[1]
  /\ \A i \in DOMAIN E.traces :
       LET p == E.traces[i] IN
         IF p \in DOMAIN told THEN E.spans[i] # <<>> /\ E.spans[i][1] = E.pretrace[i] /\ SetOf(E.spans[i][2]) = told[p] /\ Len(E.spans[i][2]) = Cardinality(told[p])
         ELSE E.spans[i] = (IF E.pretrace[i] = "" THEN <<>> ELSE <<E.pretrace[i], <<>>>>)
Fresh == logging' = <<>> /\ lines' = <<>> /\ sink' = <<>> /\ pending' = {} /\ told' = <<>>
TInit == l = 1 /\ Init
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ E.op = "filter" /\ E.got = Enabled(LevelOf(E.level), E.tokio, E.target, E.at) /\ UNCHANGED vars
     \/ E.op = "known" /\ Ours \cup Quiet \cup Runtime \subseteq SetOf(E.targets) /\ UNCHANGED vars
     \/ E.op = "run" /\ Fresh
     \/ E.op = "step" /\ Step
     \/ E.op = "outcome" /\ Outcome /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
