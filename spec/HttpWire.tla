------------------------------ MODULE HttpWire ------------------------------
(* What travels between clients and nodes: encoded bodies, error bodies,     *)
(* request parameters and trace contexts.  Bodies are run-length lists       *)
(* <<byte, count>>; ids are hexadecimal digit lists without leading zeros.   *)
EXTENDS Integers, Sequences, FiniteSets
Kinds == {"gzip", "deflate", "br", "zstd", "snappy", "lz4", "identity"}

VARIABLES sent   \* id -> [kind, data]: what each encoded body holds
vars == <<sent>>
Init == sent = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE Size(_)
Size(rs) == IF rs = <<>> THEN 0 ELSE rs[1][2] + Size(Tail(rs))
Encode(id, kind, data) == sent' = Put(sent, id, [kind |-> kind, data |-> data])
(* decoding gives back the body, or the start of it when the end went missing; never anything else *)
RECURSIVE IsPrefix(_, _)
IsPrefix(a, b) == \/ a = <<>>
                  \/ /\ b # <<>> /\ a[1][1] = b[1][1]
                     /\ IF Len(a) = 1 THEN a[1][2] <= b[1][2] ELSE a[1][2] = b[1][2] /\ IsPrefix(Tail(a), Tail(b))
Decode(id, kind, cut, ok, data) ==
  /\ UNCHANGED sent
  /\ kind = sent[id].kind => IF cut = 0 THEN ok /\ data = sent[id].data ELSE ok => IsPrefix(data, sent[id].data)

(* --- error bodies: code and message, as valid JSON ------------------------- *)
ErrorBody(code, msg) == <<code, msg, 2, code, msg>>

(* --- the words of the protocol ---------------------------------------------- *)
Words == <<<<"PRIVATE_KEY", "X-CnosDB-PrivateKey">>, <<"APPLICATION_PREFIX", "application/">>, <<"TEXT_PREFIX", "text/">>, <<"APPLICATION_CSV", "text/csv">>,
           <<"APPLICATION_TSV", "text/tsv">>, <<"APPLICATION_JSON", "application/json">>, <<"APPLICATION_NDJSON", "application/nd-json">>,
           <<"APPLICATION_TABLE", "text/table">>, <<"APPLICATION_STAR", "application/*">>, <<"STAR_STAR", "*/*">>, <<"BASIC_PREFIX", "Basic ">>,
           <<"BEARER_PREFIX", "Bearer ">>, <<"TENANT", "tenant">>, <<"DB", "db">>, <<"TABLE", "table">>, <<"TARGET_PARTITIONS", "target_partitions">>,
           <<"STREAM_TRIGGER_INTERVAL", "stream_trigger_interval">>, <<"ACCEPT", "accept">>, <<"AUTHORIZATION", "authorization">>, <<"CONTENT_TYPE", "content-type">>>>
Codes == <<200, 400, 401, 404, 405, 413, 422, 500, 503>>

(* --- one request of the HTTP client ----------------------------------------- *)
(* r: [server, ssl, unsafe, certs, proxy, basic, custom, method, path]; the     *)
(* server's certificate is signed by "ca"; a proxy is used iff one is named     *)
Secure(r) == r.ssl \/ r.unsafe
Proxied(r) == r.proxy # <<>> /\ r.proxy[1] # ""
Within(s, x) == \E i \in DOMAIN s : s[i] = x
Made(r) == IF Within(r.certs, "missing") THEN "load"
           ELSE IF Proxied(r) /\ r.proxy[1] # "yes" THEN "client"
           ELSE IF Proxied(r) /\ r.custom # <<>> /\ r.custom[1] = "bad\n" THEN "header" ELSE "ok"
Slashed(r) == IF r.slash THEN r.path ELSE "/" \o r.path
(* what is heard, by whom: <<>> when the request gets nowhere *)
Heard(r) ==
  IF Proxied(r) /\ ~Secure(r) THEN <<<<"proxy", r.method, "http://localhost:P" \o Slashed(r), IF r.custom # <<>> THEN r.custom[1] ELSE IF r.basic # <<>> THEN r.basicword ELSE "">>>>
  ELSE IF Secure(r) # (r.server = "tls") THEN <<>>
  ELSE IF r.server = "tls" /\ ~r.unsafe /\ ~Within(r.certs, "ca") THEN <<>>
  ELSE <<<<r.server, r.method, Slashed(r), "">>>>

(* --- request parameters: the names that exist per endpoint ------------------ *)
Names == [sql |-> {"tenant", "db", "chunked", "target_partitions", "stream_trigger_interval"},
          write |-> {"precision", "tenant", "db"}, dump |-> {"tenant"}, debug |-> {"id"},
          log |-> {"tenant", "db", "table", "log_type", "tag_columns", "time_column"},
          operation |-> {"service", "spanKind"},
          traces |-> {"service", "operation", "start", "end", "tag", "tags", "limit", "minDuration", "maxDuration", "traceID"}]
Given(p, k) == {x \in p : x[1] = k}
(* p: set of <<name, value>> *)
Params(which, p) == {<<k, IF Given(p, k) = {} THEN "null" ELSE (CHOOSE x \in p : x[1] = k)[2]>> : k \in Names[which]}

(* --- trace contexts --------------------------------------------------------- *)
HexLower == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexUpper == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
Digits(d) == IF d = <<>> THEN <<"0">> ELSE [i \in DOMAIN d |-> HexLower[d[i] + 1]]
SpanText(c) == Digits(c[1]) \o <<":">> \o Digits(c[2])
IsHex(ch) == \E i \in 1..16 : ch = HexLower[i] \/ ch = HexUpper[i]
DigitOf(ch) == (CHOOSE i \in 1..16 : ch = HexLower[i] \/ ch = HexUpper[i]) - 1
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
(* <<>>: not a number of at most n hex digits *)
Number(t, n) == IF t = <<>> \/ \E i \in DOMAIN t : ~IsHex(t[i]) THEN <<>>
                ELSE LET d == Strip([i \in DOMAIN t |-> DigitOf(t[i])]) IN IF Len(d) <= n THEN <<d>> ELSE <<>>
Colons(t) == {i \in DOMAIN t : t[i] = ":"}
ParseSpan(t) ==
  IF Cardinality(Colons(t)) # 1 THEN <<>>
  ELSE LET c == CHOOSE i \in Colons(t) : TRUE
           a == Number(SubSeq(t, 1, c - 1), 32)
           b == Number(SubSeq(t, c + 1, Len(t)), 16)
       IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<<<a[1], b[1]>>>>
(* what the collector hears of a span and its child: names, trace, properties and events, each once *)
Told(trace) == <<<<"x", trace, <<"k1=v1", "k2=v2">>, <<<<"fine", <<"type=ok">>>>>>>>,
                 <<"y", trace, <<"k3=v3", "k4=v4">>, <<<<"broke", <<"type=error">>>>>>>>>>
(* header: <<>> absent, <<text>>; "bad" bytes do not spell a text *)
Attach(auto, header) == IF header = <<>> THEN IF auto THEN "fresh" ELSE "none"
                        ELSE IF ParseSpan(header[1]) = <<>> THEN "none" ELSE "carried"
=============================================================================
