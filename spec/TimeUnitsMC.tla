---------------------------- MODULE TimeUnitsMC ----------------------------
(* Laws of the conversion, over boundary values of the 64-bit range.         *)
EXTENDS TimeUnits, TLC
VARIABLES ts, a, b
Mags == {<<>>, <<1>>, <<999>>, <<1000>>, <<1001>>, <<9999, 99>>, <<0, 100>>, <<1, 100>>, I64Max, BDiv(I64Max, 1000), BAdd(BDiv(I64Max, 1000), <<1>>),
         BDiv(BDiv(I64Max, 1000), 1000), BAdd(BDiv(BDiv(I64Max, 1000), 1000), <<1>>), <<4321, 8765, 123>>}
P == {"MS", "US", "NS"}
Init == ts \in ({<<FALSE, m>> : m \in Mags} \cup {<<TRUE, m>> : m \in Mags \ {<<>>}} \cup {<<TRUE, I64MinMag>>}) /\ a \in P /\ b \in P
Next == UNCHANGED <<ts, a, b>>
Spec == Init /\ [][Next]_<<ts, a, b>>
(* converting to a finer unit and back is the identity *)
RoundTrip == Rank(b) >= Rank(a) => LET r == Convert(a, b, ts) IN r # <<>> => Convert(b, a, r[1]) = <<ts>>
NeverOut == LET r == Convert(a, b, ts) IN r # <<>> => FitsI64(r[1])
Chain == (a = "NS" /\ b = "MS") => Convert(a, b, ts) = Convert("US", "MS", Convert("NS", "US", ts)[1])
Arith == /\ BAdd(ts[2], <<1>>) # ts[2] /\ BSub(BAdd(ts[2], <<17, 3>>), <<17, 3>>) = ts[2]
         /\ LET d == BDivMod(ts[2], 86400) IN BAdd(BMul(d.q, 86400), OfNat(d.r)) = ts[2]
=============================================================================
