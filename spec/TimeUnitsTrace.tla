--------------------------- MODULE TimeUnitsTrace ---------------------------
EXTENDS TimeUnits, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TInit == l = 1
E == Trace[l]
Is(o) == E.op = o
Upper(t) == CASE t \in {"ms", "Ms", "mS", "MS"} -> "MS" [] t \in {"us", "Us", "uS", "US"} -> "US" [] t \in {"ns", "Ns", "nS", "NS"} -> "NS" [] OTHER -> ""
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("conv") /\ E.ret = Convert(E.from, E.to, E.ts)
     \/ Is("prec") /\ IF Upper(E.text) = "" THEN E.ret = <<>>
                      ELSE LET p == Upper(E.text) IN E.ret = <<p>> /\ E.code = <<<<Rank(p) - 1, TRUE>>>> /\ E.unit = <<<<UnitName(p), TRUE>>>>
     \/ Is("precdef") /\ E.dflt = "NS" /\ E.sec = "NS" /\ E.saved /\ Len(E.codes) = 256
          /\ \A i \in 1..256 : E.codes[i] = (IF i = 1 THEN "MS" ELSE IF i = 2 THEN "US" ELSE "NS")
     \/ Is("dur") /\ CASE E.kind = "text" -> IF E.bad THEN E.ret = <<>> ELSE E.ret # <<>> /\ Answers(E.ret[1], E.infinite, Total(E.parts))
                       [] E.kind = "day" -> Answers(E.ret[1], ~BLe(E.n, MaxDays), Total(<<<<E.n, "day">>>>))
                       [] E.kind = "inf" -> Answers(E.ret[1], TRUE, <<>>)
                       [] OTHER -> Answers(E.ret[1], FALSE, BAdd(Total(<<<<E.secs, "s">>>>), OfNat(E.nanos)))
TSpec == TInit /\ [][TNext]_l
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
