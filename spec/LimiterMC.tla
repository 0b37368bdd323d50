----------------------------- MODULE LimiterMC -----------------------------
EXTENDS Limiter, Json, TLC
VARIABLE ev
St == [cfg |-> cfg, bal |-> bal, due |-> due, cnt |-> cnt, now |-> now, granted |-> granted]
Cfgs == {<<(<<3>>), 1, 0>>, <<(<<5>>), 2, 5>>, <<(<<4>>), 3, 9>>, <<(<<>>), 1, 0>>}
MCInit == \E c \in Cfgs :
  LET m == IF c[1] = <<>> THEN SatMul(Max(c[2], c[3]), 10) ELSE c[1][1] IN
  /\ cfg = [max |-> m, refill |-> c[2]] /\ bal = Min(c[3], m) /\ due = Interval /\ born = 0 /\ now = 0
  /\ granted = 0 /\ initial = Min(c[3], m) /\ cnt = 0 /\ cmax = <<>> /\ ret = <<>>
  /\ ev = [op |-> "new", max |-> c[1], refill |-> c[2], initial |-> c[3]]
MCNext ==
  \/ \E n \in {3, 7, 10, 25} : now + n <= 60 /\ Tick(n) /\ ev' = [op |-> "tick", n |-> n]
  \/ \E p \in 0..4 : Acquire(p) /\ ev' = [op |-> "acquire", p |-> p]
  \/ \E p \in {0, 1, 2, 6} : Take(p) /\ ev' = [op |-> "take", p |-> p]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev>>
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
Small == granted <= 12
=============================================================================
