------------------------------ MODULE Limiter ------------------------------
(* Rate limiting: the meta node's token bucket (RateBucket) and the data      *)
(* node's count bucket.  Time is a counter in tenths of the refill interval;  *)
(* numbers at or above Big stand for "practically unlimited" (they saturate). *)
EXTENDS Integers, Sequences
CONSTANT Big
VARIABLES cfg,       \* [max, refill] of the bucket
          bal,       \* tokens in the bucket
          due,       \* units until the next refill is due (<= 0: overdue)
          born, now, granted, initial,   \* history, for the rate bound
          cnt, cmax, \* count bucket: tokens held, optional maximum
          ret
vars == <<cfg, bal, due, born, now, granted, initial, cnt, cmax, ret>>
rb == <<cfg, bal, due, born, now, granted, initial>>
cb == <<cnt, cmax>>
Interval == 10
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
SatAdd(a, b) == IF a >= Big \/ b >= Big THEN Big ELSE Min(Big, a + b)
SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a >= Big \/ b >= Big THEN Big ELSE IF a > Big \div b THEN Big ELSE a * b
(* an unlimited amount stays unlimited whatever finite amount is taken *)
SatSub(a, b) == IF b = 0 THEN a ELSE IF a >= Big THEN (IF b >= Big THEN 0 ELSE Big) ELSE a - b

NewRate(mx, refill, init) ==
  LET m == IF mx = <<>> THEN SatMul(Max(refill, init), 10) ELSE mx[1]
      i == Min(init, m)
  IN /\ cfg' = [max |-> m, refill |-> refill] /\ bal' = i /\ due' = Interval
     /\ born' = 0 /\ now' = 0 /\ granted' = 0 /\ initial' = i /\ ret' = <<i>> /\ UNCHANGED cb
Tick(n) == due' = due - n /\ now' = now + n /\ UNCHANGED <<cfg, bal, born, granted, initial, cb, ret>>

(* whole intervals that have become due *)
Due == IF due > 0 THEN 0 ELSE (-due) \div Interval + 1
Filled == IF Due = 0 THEN bal ELSE Min(cfg.max, SatAdd(bal, SatMul(Due, cfg.refill)))
NextDue == due + Due * Interval
Acquire(p) ==
  IF p = 0 THEN ret' = <<TRUE>> /\ UNCHANGED <<rb, cb>>
  ELSE /\ due' = NextDue
       /\ IF Filled >= p
          THEN bal' = SatSub(Filled, p) /\ ret' = <<TRUE>> /\ granted' = SatAdd(granted, p)
          ELSE bal' = Filled /\ ret' = <<FALSE>> /\ granted' = granted
       /\ UNCHANGED <<cfg, born, now, initial, cb>>
Take(p) ==
  IF p = 0 THEN ret' = <<0>> /\ UNCHANGED <<rb, cb>>
  ELSE LET g == Min(p, Filled) IN
       /\ due' = NextDue /\ bal' = SatSub(Filled, g) /\ ret' = <<g>> /\ granted' = SatAdd(granted, g)
       /\ UNCHANGED <<cfg, born, now, initial, cb>>

NewCount(init, mx) == cnt' = init /\ cmax' = mx /\ ret' = <<init>> /\ UNCHANGED rb
Inc(n) == cnt' = cnt + n /\ ret' = <<cnt + n>> /\ UNCHANGED <<rb, cmax>>
Dec(n) == cnt' = cnt - n /\ ret' = <<cnt - n>> /\ UNCHANGED <<rb, cmax>>

(* never more than the maximum held; over the bucket's life never more handed *)
(* out than the initial amount plus one refill per elapsed interval           *)
Bounded == bal >= 0 /\ bal <= cfg.max
RateBound == SatAdd(granted, bal) <= SatAdd(initial, SatMul(now \div Interval, cfg.refill))
DueAhead == due <= Interval
=============================================================================
