------------------------------ MODULE Config ------------------------------
(* Settings of a cnosdb data or meta node: every key takes its environment   *)
(* value if there is one, else its value in the configuration file, else its *)
(* documented default; a value that does not fit its key's type makes the    *)
(* load fail; writing settings out and reading them back changes nothing;    *)
(* the checker reports exactly the entries outside their recommended range.  *)
EXTENDS Big, FiniteSets

N(x) == OfNat(x)
K(n) == BMul(N(n), 1024)
M(n) == BMul(K(n), 1024)
G(n) == BMul(M(n), 1024)
Ms(n) == BMul(BMul(N(n), 1000), 1000)
Sec(n) == BMul(Ms(n), 1000)
T(t, d) == [t |-> t, d |-> d]
Host == <<>>   \* default depends on the machine
MachineKeys == {"deployment.cpu", "deployment.memory", "cache.partition"}

DataTable == [
  global |-> [node_id |-> T("u64", N(1001)), host |-> T("str", "127.0.0.1"), cluster_name |-> T("str", "cluster_xxx"),
              store_metrics |-> T("bool", TRUE), pre_create_bucket |-> T("bool", FALSE)],
  deployment |-> [mode |-> T("str", "query_tskv"), cpu |-> T("u64", Host), memory |-> T("u64", Host)],
  meta |-> [service_addr |-> T("strs", <<"127.0.0.1:8901">>), report_time_interval |-> T("dur", Sec(30)),
            usage_schema_cache_size |-> T("bytes", M(2)), cluster_schema_cache_size |-> T("bytes", M(2)),
            system_database_replica |-> T("u64", N(3))],
  query |-> [max_server_connections |-> T("u32", N(10240)), query_sql_limit |-> T("bytes", M(16)), write_sql_limit |-> T("bytes", M(160)),
             auth_enabled |-> T("bool", FALSE), read_timeout |-> T("dur", Sec(3)), write_timeout |-> T("dur", Sec(3)),
             stream_trigger_cpu |-> T("u64", N(1)), stream_executor_cpu |-> T("u64", N(2)), sql_record_timeout |-> T("dur", Sec(10))],
  storage |-> [path |-> T("str", "/var/lib/cnosdb/data"), max_summary_size |-> T("bytes", M(128)), base_file_size |-> T("bytes", M(16)),
               flush_req_channel_cap |-> T("u64", N(16)), max_cached_readers |-> T("u64", N(32)), max_level |-> T("u16", N(4)),
               compact_trigger_file_num |-> T("u32", N(4)), compact_trigger_cold_duration |-> T("dur", Sec(3600)),
               max_compact_size |-> T("bytes", G(2)), max_concurrent_compaction |-> T("u16", N(4)),
               collect_compaction_metrics |-> T("bool", FALSE), strict_write |-> T("bool", FALSE), reserve_space |-> T("bytes", N(0)),
               copyinto_trigger_flush_size |-> T("bytes", M(128)), max_datablock_size |-> T("bytes", K(100)),
               index_cache_capacity |-> T("u64", N(100000)), tsm_meta_compress |-> T("str", "null")],
  wal |-> [path |-> T("str", "/var/lib/cnosdb/wal"), wal_req_channel_cap |-> T("u64", N(64)), max_file_size |-> T("bytes", M(128)),
           sync |-> T("bool", FALSE), compress |-> T("str", "zstd")],
  cache |-> [max_buffer_size |-> T("bytes", M(128)), partition |-> T("u64", Host)],
  log |-> [level |-> T("str", "info"), path |-> T("str", "/var/log/cnosdb"), max_file_count |-> T("ou64", <<>>),
           file_rotation |-> T("str", "daily")],
  service |-> [http_listen_port |-> T("ou16", <<N(8902)>>), grpc_listen_port |-> T("ou16", <<N(8903)>>), grpc_enable_gzip |-> T("bool", FALSE),
               flight_rpc_listen_port |-> T("ou16", <<>>), tcp_listen_port |-> T("ou16", <<>>), enable_report |-> T("bool", TRUE),
               jaeger_rpc_listen_port |-> T("ou16", <<>>)],
  cluster |-> [raft_logs_to_keep |-> T("u64", N(5000)), snapshot_holding_time |-> T("dur", Sec(3600)),
               trigger_snapshot_interval |-> T("dur", Sec(600)), lmdb_max_map_size |-> T("bytes", G(1)),
               heartbeat_interval |-> T("dur", Ms(300)), send_append_entries_timeout |-> T("dur", Sec(5)),
               install_snapshot_timeout |-> T("dur", Sec(3600))],
  trace |-> [auto_generate_span |-> T("bool", FALSE), max_spans_per_trace |-> T("ou64", <<>>), batch_report_interval |-> T("dur", Ms(500)),
             batch_report_max_spans |-> T("ou64", <<>>), otlp_endpoint |-> T("ostr", <<>>), trace_log_path |-> T("ostr", <<>>)]
]
MetaTable == [
  global |-> [node_id |-> T("u64", N(1)), cluster_name |-> T("str", "cluster_xxx"), raft_node_host |-> T("str", "127.0.0.1"),
              listen_port |-> T("u16", N(8901)), grpc_enable_gzip |-> T("bool", FALSE), data_path |-> T("str", "/var/lib/cnosdb/meta")],
  cluster |-> [lmdb_max_map_size |-> T("u64", G(1)), heartbeat_interval |-> T("u64", N(3000)), raft_logs_to_keep |-> T("u64", N(10000)),
               install_snapshot_timeout |-> T("u64", N(3600000)), send_append_entries_timeout |-> T("u64", N(5000))],
  sys_config |-> [usage_schema_cache_size |-> T("u64", M(2)), cluster_schema_cache_size |-> T("u64", M(2)),
                  system_database_replica |-> T("u64", N(3))],
  log |-> [level |-> T("str", "info"), path |-> T("str", "/var/log/cnosdb"), max_file_count |-> T("ou64", <<>>),
           file_rotation |-> T("str", "daily")],
  heartbeat |-> [heartbeat_recheck_interval |-> T("u64", N(30)), heartbeat_expired_interval |-> T("u64", N(180))]
]
Table(kind) == IF kind = "data" THEN DataTable ELSE MetaTable
(* keys of the nested optional sections: present only when one of them (data: either) is given *)
NestedKeys(kind) == IF kind = "data" THEN {"security.tls_config.certificate", "security.tls_config.private_key", "log.tokio_trace.addr"} ELSE {"log.tokio_trace.addr"}
FlatKeys(tb) == UNION {{s \o "." \o f : f \in DOMAIN tb[s]} : s \in DOMAIN tb}
Flat(tb) == [k \in FlatKeys(tb) |-> LET p == CHOOSE p \in {<<s, f>> : s \in DOMAIN tb, f \in UNION {DOMAIN tb[x] : x \in DOMAIN tb}} :
                                             p[2] \in DOMAIN tb[p[1]] /\ p[1] \o "." \o p[2] = k
                                    IN tb[p[1]][p[2]]]
DataFlat == Flat(DataTable)
MetaFlat == Flat(MetaTable)
FlatOf(kind) == IF kind = "data" THEN DataFlat ELSE MetaFlat
AllKeys(kind) == DOMAIN FlatOf(kind) \cup NestedKeys(kind)

(* --- what was written ------------------------------------------------------ *)
(* [t |-> "nat", n], "neg", "bool" b, "str" s, "strs" l, "bytes" n u, "dur" parts, "text" (neither a size nor a span) *)
BUnit(u) == CASE u \in {"", "b"} -> <<1>> [] u \in {"k", "kb"} -> <<1000>> [] u \in {"m", "mb"} -> <<1000, 1000>>
              [] u \in {"g", "gb"} -> <<1000, 1000, 1000>> [] u \in {"t", "tb"} -> <<1000, 1000, 1000, 1000>>
              [] u \in {"ki", "kib"} -> <<1024>> [] u \in {"mi", "mib"} -> <<1024, 1024>> [] u \in {"gi", "gib"} -> <<1024, 1024, 1024>>
              [] u \in {"ti", "tib"} -> <<1024, 1024, 1024, 1024>> [] u \in {"pi", "pib"} -> <<1024, 1024, 1024, 1024, 1024>>
DUnit(u) == CASE u \in {"ns", "nsec"} -> <<1>> [] u \in {"us", "usec"} -> <<1000>> [] u \in {"ms", "msec", "millis"} -> <<1000, 1000>>
              [] u \in {"s", "sec", "seconds"} -> <<1000, 1000, 1000>> [] u \in {"m", "min", "minutes"} -> <<1000, 1000, 1000, 60>>
              [] u \in {"h", "hr", "hours"} -> <<1000, 1000, 1000, 3600>> [] u \in {"d", "day", "days"} -> <<1000, 1000, 1000, 86400>>
RECURSIVE MulAll(_, _), Spans(_)
MulAll(a, ks) == IF ks = <<>> THEN a ELSE MulAll(BMul(a, Head(ks)), Tail(ks))
Spans(ps) == IF ps = <<>> THEN <<>> ELSE BAdd(MulAll(ps[1][1], DUnit(ps[1][2])), Spans(Tail(ps)))
MaxOf(t) == CASE t \in {"u64", "ou64"} -> U64Max [] t = "u32" -> N(2147483647) [] t \in {"u16", "ou16"} -> N(65535)
(* <<>>: refused; <<v>>: the value *)
Value(t, w) ==
  CASE t \in {"u64", "u32", "u16"} -> IF w.t = "nat" /\ (BLe(w.n, IF t = "u32" THEN BAdd(BAdd(MaxOf(t), MaxOf(t)), <<1>>) ELSE MaxOf(t))) THEN <<w.n>> ELSE <<>>
    [] t \in {"ou64", "ou16"} -> IF w.t = "nat" /\ BLe(w.n, MaxOf(t)) THEN <<<<w.n>>>> ELSE <<>>
    [] t = "bool" -> IF w.t = "bool" THEN <<w.b>> ELSE <<>>
    [] t = "str" -> IF w.t = "str" THEN <<w.s>> ELSE <<>>
    [] t = "ostr" -> IF w.t = "str" THEN <<<<w.s>>>> ELSE <<>>
    [] t = "strs" -> IF w.t = "strs" THEN <<w.l>> ELSE <<>>
    [] t = "bytes" -> IF w.t = "bytes" /\ BLe(MulAll(w.n, BUnit(w.u)), U64Max) THEN <<MulAll(w.n, BUnit(w.u))>> ELSE <<>>
    [] t = "dur" -> IF w.t = "dur" THEN <<Spans(w.parts)>> ELSE <<>>
KeyType(kind, k) == IF k \in NestedKeys(kind) THEN "ostr" ELSE FlatOf(kind)[k].t

Written(kind, file, env) == {x[1] : x \in file \cup env}
PickedIn(S, k) == (CHOOSE x \in S : x[1] = k)[2]
Picked(file, env, k) == IF \E x \in env : x[1] = k THEN PickedIn(env, k) ELSE PickedIn(file, k)
Loads(kind, file, env) == \A k \in Written(kind, file, env) : Value(KeyType(kind, k), Picked(file, env, k)) # <<>>
TlsKeys == {"security.tls_config.certificate", "security.tls_config.private_key"}
TlsDefault(k) == IF k = "security.tls_config.certificate" THEN "/etc/cnosdb/tls/server.crt" ELSE "/etc/cnosdb/tls/server.key"
Default(kind, W, k) ==
  IF k \in NestedKeys(kind) THEN IF k \in TlsKeys /\ W \cap TlsKeys # {} THEN <<TlsDefault(k)>> ELSE <<>>
  ELSE FlatOf(kind)[k].d
Effective(kind, file, env) == LET W == Written(kind, file, env) IN
  [k \in AllKeys(kind) |-> IF k \in W THEN Value(KeyType(kind, k), Picked(file, env, k))[1] ELSE Default(kind, W, k)]
(* machine dependent defaults are whatever the machine says *)
Matches(kind, W, want, got) == /\ DOMAIN got = AllKeys(kind)
  /\ \A k \in AllKeys(kind) : (k \in MachineKeys /\ k \notin W) \/ got[k] = want[k]

(* --- the checker ------------------------------------------------------------- *)
Lt(a, b) == BCmp(a, b) < 0
Errors(c, bad, badhost) ==
     (IF c["deployment.mode"] \notin {"query_tskv", "tskv", "query", "singleton"} THEN {<<"deployment", "mode">>} ELSE {})
  \cup {<<"meta", c["meta.service_addr"][i]>> : i \in {j \in DOMAIN c["meta.service_addr"] : c["meta.service_addr"][j] \in bad}}
  \cup (IF c["meta.report_time_interval"] = <<>> THEN {<<"meta", "heartbeat">>} ELSE {})
  \cup (IF c["storage.path"] = "" THEN {<<"storage", "path">>} ELSE {})
  \cup (IF c["storage.tsm_meta_compress"] \notin {"null", "zstd", "snappy"} THEN {<<"storage", "compress_tsm_meta_algo">>} ELSE {})
  \cup (IF c["wal.path"] = "" THEN {<<"wal", "path">>} ELSE {})
  \cup (IF c["wal.compress"] \notin {"zstd", "snappy", "gzip", "bzip", "zlib"} THEN {<<"wal", "compress">>} ELSE {})
  \cup (IF c["security.tls_config.certificate"] = <<"">> THEN {<<"security.tls", "certificate">>} ELSE {})
  \cup (IF c["security.tls_config.private_key"] = <<"">> THEN {<<"security.tls", "private_key">>} ELSE {})
Ports == {"service.http_listen_port", "service.grpc_listen_port", "service.flight_rpc_listen_port", "service.tcp_listen_port"}
ServiceErrors(c, badhost) == IF c["global.host"] \in badhost THEN Cardinality({k \in Ports : c[k] # <<>>}) ELSE 0
W1(p, s, f) == IF p THEN {<<s, f>>} ELSE {}
Warns(c) ==
     W1(c["global.cluster_name"] = "", "global", "name")
  \cup W1(c["deployment.cpu"] = <<>>, "deployment", "cpu") \cup W1(c["deployment.memory"] = <<>>, "deployment", "memory")
  \cup W1(Lt(c["query.max_server_connections"], N(16)), "query", "max_server_connections")
  \cup W1(Lt(c["query.query_sql_limit"], N(64)), "query", "query_sql_limit") \cup W1(Lt(c["query.write_sql_limit"], N(64)), "query", "write_sql_limit")
  \cup W1(Lt(c["query.read_timeout"], Ms(10)), "query", "read_timeout") \cup W1(Lt(c["query.write_timeout"], Ms(10)), "query", "write_timeout")
  \cup W1(Lt(N(1024), c["query.stream_executor_cpu"]), "query", "stream_executor_cpu") \cup W1(Lt(N(1024), c["query.stream_trigger_cpu"]), "query", "stream_trigger_cpu")
  \cup W1(Lt(c["query.sql_record_timeout"], Sec(1)), "query", "sql_record_timeout")
  \cup W1(Lt(c["storage.max_summary_size"], K(1)), "storage", "max_summary_size") \cup W1(Lt(c["storage.base_file_size"], M(1)), "storage", "base_file_size")
  \cup W1(Lt(c["storage.flush_req_channel_cap"], N(16)), "storage", "flush_req_channel_cap") \cup W1(c["storage.max_level"] # N(4), "storage", "max_level")
  \cup W1(Lt(c["storage.compact_trigger_cold_duration"], Sec(1)), "storage", "compact_trigger_cold_duration")
  \cup W1(Lt(c["storage.max_compact_size"], M(1)), "storage", "max_compact_size")
  \cup W1(Lt(c["wal.wal_req_channel_cap"], N(16)), "wal", "wal_req_channel_cap")
  \cup W1(Lt(c["cache.max_buffer_size"], M(1)), "cache", "max_buffer_size") \cup W1(Lt(N(1024), c["cache.partition"]), "cache", "partition")
  \cup W1(c["log.path"] = "", "log", "path")

(* --- behaviour -------------------------------------------------------------- *)
VARIABLES kind, cfg    \* cfg: <<>> nothing loaded, else <<effective settings>>
vars == <<kind, cfg>>
Load(k, from, file, env) ==
  /\ kind' = k
  /\ cfg' = IF from # "missing" /\ Loads(k, file, env) THEN <<Effective(k, file, env)>> ELSE <<>>
Rewrite == UNCHANGED vars
Typed == cfg = <<>> \/ DOMAIN cfg[1] = AllKeys(kind)

(* ------------------- the tool that writes the files ---------------------- *)
(* options in any order, the last of each kind counts; a missing argument is no argument *)
RECURSIVE CliOpts(_, _)
CliOpts(a, o) ==
  IF a = <<>> THEN o
  ELSE CASE a[1] \in {"-t", "--type"} -> (IF Len(a) = 1 THEN [o EXCEPT !.t = <<>>] ELSE CliOpts(SubSeq(a, 3, Len(a)), [o EXCEPT !.t = <<a[2]>>]))
         [] a[1] \in {"-o", "--output"} -> (IF Len(a) = 1 THEN [o EXCEPT !.o = <<>>] ELSE CliOpts(SubSeq(a, 3, Len(a)), [o EXCEPT !.o = <<a[2]>>]))
         [] a[1] \in {"-h", "--help"} -> CliOpts(Tail(a), [o EXCEPT !.h = TRUE])
         [] OTHER -> [o EXCEPT !.bad = TRUE]
CliGen(a) == CliOpts(a, [t |-> <<>>, o |-> <<>>, h |-> FALSE, bad |-> FALSE])
(* what a command comes to: "usage", "version", "keys", "stdout", "file", "nofile" or "fail", and for which kind of node *)
Cli(args, env) ==
  IF args = <<>> THEN [what |-> "usage", kind |-> "data"]
  ELSE CASE args[1] \in {"-h", "--help"} -> [what |-> "usage", kind |-> "data"]
         [] args[1] \in {"-v", "--version"} -> [what |-> "version", kind |-> "data"]
         [] args[1] = "gen" ->
              (LET g == CliGen(Tail(args)) k == IF g.t = <<>> THEN "data" ELSE g.t[1] IN
               IF g.bad \/ k \notin {"data", "meta"} THEN [what |-> "fail", kind |-> "data"]
               ELSE IF g.h THEN [what |-> "keys", kind |-> k]
               ELSE IF ~Loads(k, {}, env[k]) THEN [what |-> "fail", kind |-> k]
               ELSE [what |-> IF g.o \in {<<>>, <<"stdout">>} THEN "stdout" ELSE IF g.o = <<"@D">> THEN "fail" ELSE "file", kind |-> k])
         [] OTHER -> [what |-> "fail", kind |-> "data"]
=============================================================================
