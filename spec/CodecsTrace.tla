---------------------------- MODULE CodecsTrace ----------------------------
(* The pages the real code wrote and read back.  Numbers are four 16 bit limbs, least first. *)
EXTENDS Codecs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
Part == SubSeq(E.cells, E.lo + 1, E.hi)
Top(ty, x) == IF ty = "u64" THEN x[4] ELSE (x[4] + 32768) % 65536
Leq(ty, x, y) ==
  \/ Top(ty, x) < Top(ty, y)
  \/ /\ x[4] = y[4]
     /\ \/ x[3] < y[3]
        \/ x[3] = y[3] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[1] <= y[1]))
(* the one value the float coding reserves as its end mark *)
Mark == <<255, 0, 0, 32760>>
MayRefuse == E.ty = "f64" /\ E.enc \in {"gorilla", "default"} /\ \E k \in 1..Len(Part) : Part[k] = <<Mark>>
Bounded == E.ty \in {"i64", "u64", "ts"} =>
  \A k \in 1..Len(Part) : Part[k] # <<>> =>
    /\ (E.least # <<>> => Leq(E.ty, E.least[1], Part[k][1]))
    /\ (E.most # <<>> => Leq(E.ty, Part[k][1], E.most[1]))
Telling == E.ty \in {"i64", "u64", "ts"} /\ Present(Part) # <<>> => E.least # <<>> /\ E.most # <<>>
TInit == l = 1 /\ col = <<>> /\ form = "ints" /\ block = None /\ back = <<>>
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<form, block>>
  /\ \/ /\ Is("page") /\ E.res = "ok" /\ col' = Part /\ back' = E.back /\ back' = col'
        /\ E.num = Len(Part) /\ E.flip /\ Telling /\ Bounded
     \/ Is("page") /\ E.res = "refused" /\ MayRefuse /\ UNCHANGED <<col, back>>
     \/ Is("strs") /\ E.res = "ok" /\ col' = E.cells /\ back' = E.back /\ back' = col'
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
