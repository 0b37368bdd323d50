---------------------------- MODULE LimiterTrace ----------------------------
EXTENDS Limiter, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == /\ l = 1 /\ cfg = [max |-> 0, refill |-> 0] /\ bal = 0 /\ due = 1 /\ born = 0 /\ now = 0 /\ granted = 0 /\ initial = 0
         /\ cnt = 0 /\ cmax = <<>> /\ ret = <<>>
E == Trace[l]
Is(o) == E.op = o
Seen == bal' = E.bal /\ due' = E.left
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("new") /\ NewRate(E.max, E.refill, E.initial) /\ Seen /\ E.got_max = cfg'.max /\ E.got_refill = cfg'.refill /\ E.got_interval = Interval /\ E.traffic
     \/ Is("tick") /\ Tick(E.n)
     \/ Is("acquire") /\ Acquire(E.p) /\ ret' = <<E.ret>> /\ Seen
     \/ Is("acquire_one") /\ Acquire(1) /\ ret' = <<E.ret>> /\ Seen
     \/ Is("take") /\ Take(E.p) /\ ret' = <<E.ret>> /\ Seen
     \/ Is("save") /\ UNCHANGED vars /\ E.same /\ E.differs /\ E.strict /\ Seen /\ E.got_max = cfg.max /\ E.got_refill = cfg.refill /\ E.got_interval = Interval
     \/ Is("cnew") /\ NewCount(IF E.via = "zero" THEN 0 ELSE E.init, E.max) /\ ret' = <<E.ret>> /\ E.got_max = E.max
     \/ Is("inc") /\ Inc(E.n) /\ ret' = <<E.ret>>
     \/ Is("dec") /\ Dec(E.n) /\ ret' = <<E.ret>>
     \/ Is("csave") /\ UNCHANGED vars /\ E.ret = cnt /\ E.got_max = cmax
     \/ Is("storm") /\ UNCHANGED vars /\ E.got + E.bal = E.initial
                    /\ (IF E.closed THEN E.got = Min(E.initial, E.threads * E.per * E.p)
                        ELSE E.got = Min((E.initial \div E.p) * E.p, E.threads * E.per * E.p))
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
