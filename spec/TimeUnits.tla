----------------------------- MODULE TimeUnits -----------------------------
(* Timestamp precisions and durations, over full 64-bit ranges.              *)
EXTENDS Big
Precisions == <<"MS", "US", "NS">>
Rank(p) == CHOOSE i \in 1..3 : Precisions[i] = p
UnitName(p) == <<"Millisecond", "Microsecond", "Nanosecond">>[Rank(p)]
RECURSIVE Up(_, _), Down(_, _)
Up(m, n) == IF n = 0 THEN m ELSE Up(BMul(m, 1000), n - 1)
Down(m, n) == IF n = 0 THEN m ELSE Down(BDiv(m, 1000), n - 1)
(* finer: exact or refused; coarser: truncated towards zero *)
Convert(from, to, ts) ==
  IF Rank(to) >= Rank(from)
  THEN LET r == IntOf(ts[1], Up(ts[2], Rank(to) - Rank(from))) IN IF FitsI64(r) THEN <<r>> ELSE <<>>
  ELSE <<IntOf(ts[1], Down(ts[2], Rank(from) - Rank(to)))>>

(* nanoseconds of one unit, as a chain of small factors *)
Factors(u) ==
  CASE u = "ns" -> <<>> [] u = "us" -> <<1000>> [] u = "ms" -> <<1000, 1000>> [] u = "s" -> <<1000, 1000, 1000>>
    [] u = "m" -> <<60, 1000, 1000, 1000>> [] u = "h" -> <<3600, 1000, 1000, 1000>> [] u = "day" -> <<86400, 1000, 1000, 1000>>
    [] u = "w" -> <<7, 86400, 1000, 1000, 1000>> [] u = "M" -> <<27396, 96, 1000, 1000, 1000>> [] u = "y" -> <<36525, 864, 1000, 1000, 1000>>
RECURSIVE Times(_, _)
Times(m, fs) == IF fs = <<>> THEN m ELSE Times(BMul(m, Head(fs)), Tail(fs))
RECURSIVE Total(_)
Total(parts) == IF parts = <<>> THEN <<>> ELSE BAdd(Times(parts[1][1], Factors(parts[1][2])), Total(Tail(parts)))
MaxDays == BDiv(BDiv(BDiv(U64Max, 24), 60), 60)
(* what a duration with `total` nanoseconds must answer *)
Clamp(m) == <<FALSE, BMin(m, I64Max)>>
Answers(d, inf, total) ==
  /\ d.inf = inf /\ d.back /\ d.saved
  /\ IF inf THEN d.ns = <<FALSE, I64Max>> /\ d.us = <<FALSE, I64Max>> /\ d.ms = <<FALSE, I64Max>>
     ELSE d.total = total /\ d.ns = Clamp(total) /\ d.us = Clamp(BDiv(total, 1000)) /\ d.ms = Clamp(BDiv(BDiv(total, 1000), 1000))
  /\ d.pns = d.ns /\ d.pus = d.us /\ d.pms = d.ms
=============================================================================
