------------------------------- MODULE LsmMC -------------------------------
EXTENDS Lsm, Json, IOUtils
VARIABLE ev
Rename(v) == IF v = None THEN 0 ELSE 1
\* states that differ only in which write numbers cells carry: keep their order
Vals == {mem[c] : c \in Cells} \cup {ghost[c] : c \in Cells} \cup UNION {{files[k].d[c] : c \in Cells} : k \in DOMAIN files}
Rk(v) == IF v = None THEN 0 ELSE Cardinality({x \in Vals : x # None /\ x <= v})
Tail1 == SubSeq(log, done + 1, Len(log))
St == [m |-> {<<c, Rk(mem[c])>> : c \in {c \in Cells : mem[c] # None}},
       f |-> [k \in DOMAIN files |-> [d |-> {<<c, Rk(files[k].d[c])>> : c \in {c \in Cells : files[k].d[c] # None}}, t |-> files[k].t]],
       p |-> first = done + 1, s |-> [k \in DOMAIN snap |-> [k2 \in DOMAIN snap[k].f |-> {c \in Cells : snap[k].f[k2].d[c] # None} \ snap[k].f[k2].t]],
       l |-> [k \in DOMAIN Tail1 |-> IF Tail1[k].k = "w" THEN Tail1[k].c ELSE Tail1[k].p], n |-> n]
MCInit == Init /\ ev = [op |-> "new"]
CellSets == {{<<p, f>> : f \in F} : p \in Pts, F \in SUBSET Fields}
\* deletions: by series, by time, everything
DelSets == {[k |-> "s", x |-> s] : s \in Series} \cup {[k |-> "t", x |-> t] : t \in Times} \cup {[k |-> "all", x |-> 0]}
PtsOf(d) == {p \in Pts : (d.k = "s" /\ p[1] = d.x) \/ (d.k = "t" /\ p[2] = d.x) \/ d.k = "all"}
MCNext ==
  \/ \E cs \in CellSets : Put(cs) /\ ev' = [op |-> "put", c |-> cs]
  \/ \E d \in DelSets : Del(PtsOf(d)) /\ ev' = [op |-> "del", d |-> d]
  \/ mem # Empty /\ Flush /\ ev' = [op |-> "flush"]
  \/ \E a, b \in 1..Len(files) : Compact(a, b) /\ ev' = [op |-> "compact"]
  \/ first < done + 1 /\ Purge /\ ev' = [op |-> "purge"]
  \/ Crash /\ ev' = [op |-> "crash"]
  \/ Save /\ ev' = [op |-> "snap"]
  \/ Restore /\ ev' = [op |-> "restore"]
MCSpec == MCInit /\ [][MCNext]_<<vars, ev>>
EdgeOut == PrintT("EDGE " \o ToJson([f |-> St, ev |-> ev', t |-> St']))
=============================================================================
