--------------------------- MODULE LruCacheTrace ---------------------------
EXTENDS LruCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == /\ l = 1 /\ nsh = 1 /\ shardOf = [k \in {} |-> 0] /\ per = 1 /\ sh = [i \in {0} |-> <<>>] /\ ret = <<>>
E == Trace[l]
Is(o) == E.op = o
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("new") /\ New(E.kind, E.cap, E.shards)
     \/ Is("insert") /\ Insert(E.k, E.v) /\ ret' = E.ret
     \/ Is("get") /\ Get(E.k) /\ ret' = E.ret
     \/ Is("remove") /\ Take(E.k) /\ ret' = E.ret
     \/ Is("pop") /\ (\E s \in DOMAIN sh : PopFrom(s)) /\ ret' = E.ret
     \/ Is("popshard") /\ PopShard(E.k) /\ ret' = E.ret
     \/ Is("setcap") /\ SetCapacity(E.n)
     \/ Is("cap") /\ GetCapacity /\ ret' = <<E.ret>>
     \/ Is("usage") /\ GetUsage /\ ret' = <<E.ret>>
     \/ Is("clear") /\ Clear
     (* quiescent accounting after n threads shared one cache: every value came from one insert, *)
     (* none was handed out twice, and the bounds hold                                            *)
     \/ Is("storm") /\ E.invented = 0 /\ E.dup = 0 /\ E.usage <= E.capacity /\ E.left = E.usage
                    /\ E.capacity = 16 * PerShard(E.cap, 16) /\ E.out + E.left <= E.put /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
