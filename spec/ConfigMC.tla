------------------------------ MODULE ConfigMC ------------------------------
(* Three settings of three types; every placement of every value.            *)
EXTENDS Config, TLC, Json
VARIABLES ev, rows
St == <<kind, cfg, rows>>
Nat1(x) == [t |-> "nat", n |-> N(x)]
Txt(s) == [t |-> "str", s |-> s]
Sz(n, u) == [t |-> "bytes", n |-> N(n), u |-> u]
Vals(k) == CASE k = "global.node_id" -> {Nat1(7), Txt("seven")}
             [] k = "wal.max_file_size" -> {Sz(2, "kib"), [t |-> "text", s |-> "big"]}
             [] k = "security.tls_config.certificate" -> {Txt("c"), Txt("")}
             [] k = "wal.compress" -> {Txt("none")}
Ks == {"global.node_id", "wal.max_file_size", "security.tls_config.certificate", "wal.compress"}
Absent == [t |-> "absent"]
Choices == {f \in [Ks -> UNION {Vals(k) : k \in Ks} \cup {Absent}] : \A k \in Ks : f[k] = Absent \/ f[k] \in Vals(k)}
Rows(f) == {<<k, f[k]>> : k \in {x \in Ks : f[x] # Absent}}
MCInit == kind = "data" /\ cfg = <<>> /\ rows = <<{}, {}>> /\ ev = [op |-> "none"]
MCNext == \E f \in Choices, e \in Choices, from \in {"file", "missing"} :
  /\ rows = <<{}, {}>> /\ Load("data", from, Rows(f), Rows(e)) /\ rows' = <<Rows(f), Rows(e)>>
  /\ (from = "missing" => f = [k \in Ks |-> Absent])
  /\ ev' = [op |-> "load", kind |-> "data", from |-> from, file |-> rows'[1], env |-> rows'[2]]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev, rows>>
(* the environment decides whatever the file says *)
EnvWins == \A x \in rows[2] : cfg # <<>> => cfg[1][x[1]] = Value(KeyType(kind, x[1]), x[2])[1]
FileNext == \A x \in rows[1] : (cfg # <<>> /\ ~\E y \in rows[2] : y[1] = x[1]) => cfg[1][x[1]] = Value(KeyType(kind, x[1]), x[2])[1]
Checked == cfg # <<>> => ((<<"security.tls", "certificate">> \in Errors(cfg[1], {}, {})) <=> cfg[1]["security.tls_config.certificate"] = <<"">>)
EdgeOut == PrintT("EDGE " \o ToJson([f |-> [r |-> rows], ev |-> ev', t |-> [r |-> rows', m |-> ev'.from]]))
=============================================================================
