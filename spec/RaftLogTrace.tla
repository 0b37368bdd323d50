---------------------------- MODULE RaftLogTrace ----------------------------
EXTENDS RaftLog, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
TInit == l = 1 /\ st = (1 :> Fresh) /\ store = "wal" /\ lag = 0 /\ out = <<>>
Low(b) == IF b[1] = "in" THEN b[2] ELSE IF b[1] = "ex" THEN b[2] + 1 ELSE 0
High(b) == IF b[1] = "in" THEN b[2] ELSE IF b[1] = "ex" THEN b[2] - 1 ELSE 2000000000
(* where the logs start and end after the restart is what they say, as far as it is allowed *)
SpanOf(g) == E.spans[CHOOSE k \in 1..Len(E.spans) : E.spans[k].g = g].span
Starting == [g \in DOMAIN st |->
  LET s == SpanOf(g) r == st[g]
  IN IF s = <<>> THEN <<r.lo, Min(r.lo - 1, Last(r))>>
     ELSE <<IF s[1] \in Starts(r) THEN s[1] ELSE r.lo, IF s[2] \in Ends(r) THEN s[2] ELSE Last(r)>>]
GroupsIn == {st[g].name[1] : g \in {h \in DOMAIN st : st[h].name # <<>>}}
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ /\ Is("reset") /\ st' = [g \in {E.groups[k] : k \in 1..Len(E.groups)} |-> Fresh] /\ store' = E.store /\ lag' = E.lag /\ out' = <<>>
     \/ Is("append") /\ Put(E.g, E.from, E.ents) /\ out' = E.span
     \/ Is("cut") /\ Cut(E.g, E.i) /\ out' = E.span
     \/ Is("purge") /\ Purge(E.g, E.at) /\ out' = E.span
     \/ Is("apply") /\ Apply(E.g, E.i) /\ out' = E.res
     \/ Is("get") /\ Get(E.g, Low(E.lo), High(E.hi)) /\ out' = E.ents
     \/ Is("state") /\ State(E.g) /\ out' = [purged |-> E.purged, last |-> E.last, span |-> E.span]
     \/ Is("vote") /\ Vote(E.g, E.v)
     \/ Is("voted") /\ Voted(E.g) /\ out' = E.v
     \/ Is("applied") /\ State2(E.g) /\ out' = [at |-> E.at, mem |-> E.mem, items |-> E.items]
     \/ Is("build") /\ Build(E.g) /\ out' = [at |-> E.at, mem |-> E.mem, id |-> E.id, data |-> E.data]
     \/ Is("current") /\ ReadSnap(E.g) /\ out' = E.snap
     \/ Is("install") /\ Install(E.g, E.src) /\ out' = IF E.none = 1 THEN <<>> ELSE <<E.snap>>
     \/ Is("init") /\ Init1(E.g)
     \/ Is("isinit") /\ IsInit(E.g) /\ out' = E.yes
     \/ Is("name") /\ Name(E.g, E.tenant, E.raft)
     \/ /\ Is("names") /\ E.one = st[E.g].name /\ UNCHANGED vars
        /\ Len(E.all) = Cardinality(GroupsIn) /\ {E.all[k] : k \in 1..Len(E.all)} = GroupsIn
     \/ Is("destroy") /\ Destroy(E.g) /\ out' = E.left
     \/ /\ Is("reopen") /\ Reopen(Starting)
        /\ \A g \in DOMAIN st : Starting[g][2] \in Ends(st[g])
        /\ \A k \in 1..Len(E.spans) : E.spans[k].span = Span(st'[E.spans[k].g])
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
