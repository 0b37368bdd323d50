--------------------------- MODULE SummariesTrace ---------------------------
EXTENDS Summaries, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1 /\ ins = {} /\ said = {} /\ size = 0 /\ next = 0 /\ ret = <<>>
E == Trace[l]
Is(o) == E.op = o
Distinct == Cardinality(ins)
Bytes(v, n) == Len(v) = n
LowBytes(a, b) == \A i \in DOMAIN b : b[i] = a[i]
(* little endian bytes of x: x mod 256^8 in two's complement is checked limb-wise by the harness value *)
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("bnew") /\ ~E.void /\ BNew(E.m) /\ E.len = size' /\ ~E.empty_any
     \/ Is("binsert") /\ BInsert(E.k) /\ E.len = size /\ E.set >= 1 /\ E.set <= 4 * Cardinality(ins')
     \/ Is("bask") /\ BAsk(E.k, E.ret)
     \/ Is("bsave") /\ BSave /\ E.same /\ E.len = size
     \/ Is("bload") /\ (\A i \in DOMAIN E.ret : E.ret[i]) /\ UNCHANGED vars
     \/ Is("bfill") /\ E.missing = 0 /\ E.fp <= E.maxfp /\ UNCHANGED vars
     \/ Is("dedup") /\ LET K == IF E.mode = "stop" /\ E.at < Len(E.v) THEN KeptUntil(E.at, E.v) ELSE Kept(E.mode, E.v) IN
           /\ E.kept = Ascending(K) /\ E.all = Len(E.v) /\ Len(E.dropped) = Len(E.v) - Cardinality(K)
           /\ {E.dropped[i] : i \in DOMAIN E.dropped} = (DOMAIN E.v) \ K
           /\ UNCHANGED vars
     \/ Is("bkdr") /\ LET h0 == IF E.start = <<>> THEN <<0, 0, 0, 0>> ELSE E.start
                          hs == HashParts(h0, E.parts)
                          fin == HashFrom(h0, Flat(E.parts))
                      IN /\ E.steps = hs /\ E.fin = fin /\ E.lo = fin
                         /\ E.hi = IF E.prefix = <<>> \/ E.start # <<>> THEN <<0, 0, 0, 0>> ELSE <<E.prefix[1], 0, 0, 0>>
                         /\ UNCHANGED vars
     \/ Is("inew") /\ INew(E.n)
     \/ Is("iset") /\ INew(E.n)
     \/ Is("inext") /\ INext /\ ret' = <<E.ret>>
     \/ Is("ids") /\ E.asc /\ E.distinct = E.made /\ E.made = E.threads * E.per /\ E.min = E.n /\ UNCHANGED vars
     \/ Is("lebytes") /\ E.back /\ E.b64 = E.le /\ LowBytes(E.le, E.b32) /\ LowBytes(E.le, E.b16) /\ Len(E.b32) = 4 /\ Len(E.b16) = 2 /\ E.hex = E.hexwant /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
