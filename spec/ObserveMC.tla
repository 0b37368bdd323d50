------------------------------ MODULE ObserveMC -----------------------------
EXTENDS Observe, TLC, Json
VARIABLES ev, n
Texts == {"off", "warn", "trace", "nonsense"}
Targets == {"tskv::wal::writer", "actix_web::middleware::logger", "hyper"}
Ats == {"WARN", "INFO"}
MCInit == Init /\ n = 0 /\ ev = [do |-> "start"]
MCNext ==
  /\ n < 5 /\ n' = n + 1
  /\ \/ \E t \in Texts, k \in {"a", "b"} : SetUp([level |-> LevelOf(t), sub |-> k, file |-> "f", rotation |-> "never"])
                          /\ ev' = [do |-> "init", level |-> t, sub |-> k, file |-> "f", rotation |-> "never", max |-> <<>>]
     \/ \E t \in Targets, a \in Ats : Len(lines) < 2 /\ Log(t, a, "m") /\ ev' = [do |-> "log", target |-> t, level |-> a, msg |-> "m"]
     \/ Cardinality(UNION {told[p] : p \in DOMAIN told} \cup pending) < 2
          /\ sink # <<>> /\ LET nm == IF pending = {} THEN "s" ELSE "r" IN Finish(Spans(nm, n, {})) /\ ev' = [do |-> "span", name |-> nm, trace |-> n, kids |-> 0]
     \/ pending = {} /\ \E p \in {<<>>, <<"a">>, <<"b">>} : Tracing(p) /\ ev' = [do |-> "tracing", path |-> p]
     \/ Flush /\ ev' = [do |-> "flush"]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev, n>>
St == <<vars, n>>
(* a second set-up changes nothing; a line written stays; nothing of a disabled target is ever written; a flush leaves nothing unreported *)
FirstWins == [][logging # <<>> => logging' = logging]_<<vars, ev, n>>
LinesKept == [][\E k \in 0..1 : Len(lines') = Len(lines) + k /\ SubSeq(lines', 1, Len(lines)) = lines]_<<vars, ev, n>>
NoneOfOthers == \A i \in DOMAIN lines : lines[i][2] # "hyper"
SpansKept == [][(ev'.do = "flush" /\ sink # <<>>) => pending' = {} /\ pending \subseteq told'[sink[1]]]_<<vars, ev, n>>
ASSUME Monotone == \A t \in Targets, a \in DOMAIN Rank, b \in DOMAIN Rank, l \in 0..5 : Rank[a] <= Rank[b] /\ Enabled(l, FALSE, t, b) => Enabled(l, FALSE, t, a)
EdgeOut == PrintT("EDGE " \o ToJson([f |-> [v |-> vars, n |-> n], ev |-> ev', t |-> [v |-> <<logging', lines', sink', pending', told'>>, n |-> n']]))
=============================================================================
