--------------------------- MODULE HttpWireTrace ---------------------------
EXTENDS HttpWire, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
SetOf(s) == {s[i] : i \in DOMAIN s}
TInit == l = 1 /\ Init
Stay == UNCHANGED vars
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("start") /\ sent' = <<>>
     \/ Is("enc") /\ E.ok /\ (E.kind = "identity" => E.bytes = Size(E.data)) /\ Encode(E.id, E.kind, E.data)
     \/ Is("dec") /\ Decode(E.id, E.kind, E.cut, E.ok, E.data)
     \/ Is("junk") /\ Stay
     \/ Is("names") /\ SetOf(E.all) = Kinds /\ Len(E.all) = Cardinality(Kinds)
          /\ (\A i \in DOMAIN E.try : E.got[i] = IF E.try[i] \in Kinds THEN <<E.try[i], E.try[i]>> ELSE <<>>) /\ Stay
     \/ Is("error") /\ E.body = ErrorBody(E.code, E.msg) /\ E.wire = ErrorBody(E.code, E.msg) /\ E.unkmsg = E.msg
          /\ E.unknown = <<"0000000", "000000">> /\ Stay
     \/ Is("params") /\ E.got # <<>> /\ SetOf(E.flat) = Params(E.which, SetOf(E.given)) /\ Stay
     \/ Is("span") /\ E.text = SpanText(E.ctx) /\ E.back = <<E.ctx>> /\ E.carried = <<E.ctx>> /\ E.md
          /\ E.trace = <<E.ctx[1]>> /\ E.child = <<E.ctx[1]>> /\ E.rooted /\ E.told = Told(E.ctx[1]) /\ E.noop /\ Stay
     \/ Is("parse") /\ E.got = ParseSpan(E.text) /\ Stay
     \/ Is("serve") /\ E.body2 = E.body /\ E.kept /\ Stay
          /\ LET a == Attach(E.auto, E.header) IN
               CASE a = "none" -> E.ctx = <<>> [] a = "fresh" -> Len(E.ctx) = 1 [] a = "carried" -> E.ctx = ParseSpan(E.header[1])
     \/ Is("words") /\ E.got = Words /\ E.codes = Codes /\ E.empty = "{}" /\ E.unknown = <<"unknown error", "unknown_error", "unknown error x">> /\ Stay
     \/ Is("send") /\ E.made = Made(E) /\ E.named = (E.made = "load") /\ Stay
          /\ IF E.made # "ok" THEN E.got = <<>> ELSE E.got = Heard(E) /\ E.status = (IF Heard(E) = <<>> THEN 0 ELSE 200)
     \/ Is("url") /\ E.url = (IF E.ssl \/ E.unsafe THEN "https://" ELSE "http://") \o E.host \o ":" \o ToString(E.port) \o (IF E.slash THEN "" ELSE "/") \o E.path /\ Stay
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
