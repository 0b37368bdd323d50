------------------------------ MODULE Observe ------------------------------
(* What an operator sees of a running node: log lines on stderr and in the   *)
(* log directory, trace spans in the span file.                              *)
EXTENDS Integers, Sequences, FiniteSets
Rank == [ERROR |-> 1, WARN |-> 2, INFO |-> 3, DEBUG |-> 4, TRACE |-> 5]
(* what a configured level means; anything unreadable is "warn" *)
LevelOf(text) ==
  CASE text \in {"off", "OFF", "0"} -> 0
    [] text \in {"error", "ERROR", "Error", "1", ""} -> 1
    [] text \in {"info", "INFO", "Info", "3"} -> 3
    [] text \in {"debug", "DEBUG", "Debug", "4"} -> 4
    [] text \in {"trace", "TRACE", "Trace", "5"} -> 5
    [] OTHER -> 2
(* the crates that log at the configured level, and the one library that only warns *)
Ours == {"client", "config", "coordinator", "e2e_test", "error_code", "macros", "http_protocol", "limiter_bucket", "lru_cache", "cnosdb", "memory_pool",
         "meta", "metrics", "models", "protos", "protocol_parser", "query", "spi", "sqllogicaltests", "test", "trace", "tskv", "utils", "replication",
         "datafusion", "arrow"}
Quiet == {"actix_web::middleware::logger"}
Runtime == {"tokio", "runtime"}
Begins(t, p) == Len(p) <= Len(t) /\ SubSeq(t, 1, Len(p)) = p
Enabled(level, tokio, target, at) ==
  \/ (\E p \in Ours : Begins(target, p)) /\ Rank[at] <= level
  \/ (\E p \in Quiet : Begins(target, p)) /\ Rank[at] <= 2
  \/ tokio /\ \E p \in Runtime : Begins(target, p)

VARIABLES logging,   \* <<>> or <<[level, sub, file, rotation]>>: the first set-up wins
          lines,     \* every line written, in order
          sink,      \* <<>> or <<path>>: where finished spans go
          pending,   \* spans finished and not yet reported
          told       \* path -> spans written there
vars == <<logging, lines, sink, pending, told>>
Init == logging = <<>> /\ lines = <<>> /\ sink = <<>> /\ pending = {} /\ told = <<>>
SetUp(c) == logging' = (IF logging = <<>> THEN <<c>> ELSE logging) /\ UNCHANGED <<lines, sink, pending, told>>
Log(target, at, msg) ==
  /\ lines' = IF logging # <<>> /\ Enabled(logging[1].level, FALSE, target, at) THEN Append(lines, <<at, target, msg>>) ELSE lines
  /\ UNCHANGED <<logging, sink, pending, told>>
Tracing(path) ==   \* path: <<>> leaves tracing as it was
  /\ sink' = (IF path = <<>> THEN sink ELSE path)
  /\ told' = (IF path = <<>> \/ path[1] \in DOMAIN told THEN told ELSE [p \in DOMAIN told \cup {path[1]} |-> IF p = path[1] THEN {} ELSE told[p]])
  /\ UNCHANGED <<logging, lines, pending>>
Spans(name, trace, kids) == {<<name, trace>>} \cup {<<name \o "." \o k, trace>> : k \in kids}
Finish(sp) == pending' = (IF sink = <<>> THEN pending ELSE pending \cup sp) /\ UNCHANGED <<logging, lines, sink, told>>
Flush == /\ pending' = {} /\ UNCHANGED <<logging, lines, sink>>
         /\ told' = IF sink = <<>> THEN told ELSE [told EXCEPT ![sink[1]] = @ \cup pending]
(* the shape of the log file names per rotation *)
Shape(r) == CASE r = "daily" -> ".9999-99-99" [] r = "hourly" -> ".9999-99-99-99" [] r = "minutely" -> ".9999-99-99-99-99" [] OTHER -> ""
Rotations == {"daily", "hourly", "minutely", "never"}
=============================================================================
