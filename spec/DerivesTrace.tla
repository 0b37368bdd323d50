-------------------------- MODULE DerivesTrace --------------------------
EXTENDS Derives, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
TInit == l = 1 /\ Init
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("enum") /\ pre' = E.prefixes /\ variants' = E.cases /\ numbers' = {}
          /\ E.compiled = Valid(E.prefixes, E.cases)
          /\ (E.compiled => /\ E.codes = Codes(E.prefixes, E.cases)
                           /\ {<<E.methods[i][1], E.methods[i][2]>> : i \in DOMAIN E.methods} = Methods(E.prefixes, E.cases)
                           /\ E.messages = E.texts /\ E.sources = E.codes)
     \/ Is("unknown") /\ UNCHANGED vars /\ E.compiled /\ Len(E.got) = Len(E.words) + 1
          /\ E.got[1] = <<"0000000", "unknown_error", "unknown error", "unknown error">>
          /\ \A i \in 1..Len(E.words) : E.got[i + 1] = <<"000000", E.words[i], "unknown error " \o E.words[i], "unknown error " \o E.words[i]>>
     \/ Is("other") /\ E.compiled = FALSE /\ UNCHANGED vars
     \/ Is("keys") /\ E.compiled /\ E.keys = Keys(E.type) /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
