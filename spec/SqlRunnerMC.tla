--------------------------- MODULE SqlRunnerMC ---------------------------
EXTENDS SqlRunner, TLC, Json
VARIABLE ev
L(t, n, v) == [t |-> t, n |-> n, v |-> v, x |-> ""]
Instr == {L("instr", "TENANT", <<"t">>), L("instr", "DATABASE", <<"d", "_", "1">>), L("instr", "DATABASE", <<"1", "d">>),
          L("instr", "HTTP_PORT", <<"8", "1">>), L("instr", "HTTP_PORT", <<"7", "0", "0", "0", "0">>), L("instr", "HTTP_HOST", <<"h">>), L("instr", "PRECISION", <<"M", "S">>),
          L("instr", "PASSWORD", <<"p", "-">>), L("instr", "FOO", <<"x">>)}
Plain == {L("sql", "", <<>>), L("blank", "", <<>>), L("http", "", <<>>), L("end", "LP", <<>>)}
Marks == {L("begin", "LP", <<>>), L("begin", "OPENTSDB", <<>>), L("begin", "OPENTSDB_JSON", <<>>)}
St == set
MInit == Init /\ ev = [op |-> "init"]
MNext == \E a \in Instr \cup Plain \cup Marks, b \in Plain \cup Instr, c \in {L("sql", "", <<>>), L("end", "LP", <<>>), L("end", "OPENTSDB_JSON", <<>>), L("blank", "", <<>>)} :
            LET ls == <<a, b, c>> IN Record(ls) /\ ev' = [op |-> "record", lines |-> ls, what |-> What(ls)]
MSpec == MInit /\ [][MNext]_<<vars, ev>>
(* no points are ever sent as a statement, and only closed blocks are sent *)
Wellformed == [][ev'.what.ok => /\ ev'.what.kind \in {"lp", "tsdb", "json"} <=> \E i \in 1..3 : ev'.lines[i].t = "begin"]_<<vars, ev>>
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> [op |-> "record", lines |-> ev'.lines], t |-> set']))
=============================================================================
