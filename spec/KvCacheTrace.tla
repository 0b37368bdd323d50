--------------------------- MODULE KvCacheTrace ---------------------------
EXTENDS KvCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
TInit == l = 1 /\ cap = 1 /\ q = <<>> /\ ret = <<>>
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("knew") /\ New(E.cap)
     \/ Is("kput") /\ Put(E.k, E.v)
     \/ Is("kget") /\ Get(E.k) /\ ret' = E.ret
     \/ Is("klast") /\ Newest /\ ret' = E.ret
     \/ Is("kdelbefore") /\ DelBefore(E.k)
     \/ Is("kdelafter") /\ DelAfter(E.k)
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
