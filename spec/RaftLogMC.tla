------------------------------ MODULE RaftLogMC ------------------------------
EXTENDS RaftLog, Json
VARIABLE ev
CONSTANTS N
G == 1
r1 == st[G]
St == [store |-> store, lag |-> lag, r |-> [k \in DOMAIN r1 \ {"vote", "init", "name"} |-> r1[k]]]
MCInit == st = (G :> Fresh) /\ store \in {"wal", "heed"} /\ lag \in {0, 1} /\ out = <<>> /\ ev = [op |-> "reset"]
(* the entry a leader of that term has at that index *)
Ent(i, t) == <<t, t, IF i % 2 = 0 THEN 2 ELSE 1, i + t>>
PrevTerm(i) == IF i > r1.base /\ i <= Last(r1) + 1 THEN At(r1, i - 1)[2] ELSE IF r1.purged # <<>> THEN r1.purged[1][1] ELSE 1
MCNext ==
  \/ \E from \in Max(r1.lo, AppliedTo(r1) + 1)..Min(N, Last(r1) + 1), t \in {1, 2}, n \in {1, 2} :
       /\ t >= PrevTerm(from) /\ from + n - 1 <= N
       /\ LET es == [k \in 1..n |-> Ent(from + k - 1, t)]
          IN Put(G, from, es) /\ ev' = [op |-> "append", from |-> from, ents |-> es]
  \/ \E i \in Max(r1.lo, AppliedTo(r1) + 1)..(Last(r1) + 1) : Cut(G, i) /\ ev' = [op |-> "cut", i |-> i]
  \/ \E i \in r1.lo..Last(r1) : r1.snap # <<>> /\ i <= r1.snap[1].i /\ Purge(G, IdOf(At(r1, i))) /\ ev' = [op |-> "purge", at |-> IdOf(At(r1, i))]
  \/ \E i \in (AppliedTo(r1) + 1)..Last(r1) : Apply(G, i) /\ ev' = [op |-> "apply", i |-> i]
  \/ Build(G) /\ ev' = [op |-> "build"]
  \/ \E lo \in Starts(r1), hi \in Ends(r1) : Reopen(G :> <<lo, hi>>) /\ ev' = [op |-> "reopen", kept |-> IF \E x \in Ends(r1) : x < hi THEN 1 ELSE 0]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev>>
(* a call that relies on entries a restart may drop is not replayed *)
EdgeOut == (ev'.op = "reopen" /\ ev'.kept = 1) \/ PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
=============================================================================
