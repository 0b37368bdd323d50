------------------------------ MODULE Metrics ------------------------------
(* The metrics facility: registers (a tree whose members inherit labels),     *)
(* metrics (one per register and name), recorders (one per metric and label   *)
(* set) and what a report shows.  Durations are whole milliseconds.           *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES regs,   \* seq of [parent, labels]
          mets,   \* seq of [reg, name, help, kind, buckets, live: label set -> cell number]
          hm,     \* metric handle -> index in mets
          cells,  \* seq of recorded state: [kind, v, n, counts]
          hr,     \* recorder handle -> cell
          once,   \* set of [reg, name, help, labels, v, id] pending one-time samples
          ret
vars == <<regs, mets, hm, cells, hr, once, ret>>

Range(f) == {f[x] : x \in DOMAIN f}
Pairs(s) == Range(s)
(* labels added later win over those with the same key *)
Merge(A, B) == B \cup {p \in A : ~\E q \in B : q[1] = p[1]}
FoldPairs(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN {} ELSE Merge(F[i - 1], {s[i]}) IN F[Len(s)]
RECURSIVE Sorted(_)
(* ascending, with -1 standing for the unbounded bucket *)
Key(x) == IF x < 0 THEN 2000000000 ELSE x
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : Key(x) <= Key(y) IN <<m>> \o Sorted(S \ {m})

New(ls) == /\ regs' = <<[parent |-> 0, labels |-> FoldPairs(ls)]>> /\ mets' = <<>> /\ hm' = <<>> /\ cells' = <<>> /\ hr' = <<>> /\ once' = {} /\ ret' = <<>>
Sub(p, ls) ==
  LET L == Merge(regs[p].labels, FoldPairs(ls))
      hit == {i \in DOMAIN regs : regs[i].parent = p /\ regs[i].labels = L}
  IN IF hit # {} THEN ret' = <<CHOOSE i \in hit : TRUE>> /\ UNCHANGED <<regs, mets, hm, cells, hr, once>>
     ELSE /\ regs' = Append(regs, [parent |-> p, labels |-> L]) /\ ret' = <<Len(regs) + 1>> /\ UNCHANGED <<mets, hm, cells, hr, once>>
(* asking again for a name yields the metric already registered there *)
Metric(r, name, help, kind, buckets) ==
  LET hit == {i \in DOMAIN mets : mets[i].reg = r /\ mets[i].name = name}
  IN IF hit # {} THEN LET i == CHOOSE x \in hit : TRUE IN
          mets[i].kind = kind /\ hm' = Append(hm, i) /\ ret' = <<>> /\ UNCHANGED <<regs, mets, cells, hr, once>>
     ELSE /\ mets' = Append(mets, [reg |-> r, name |-> name, help |-> help, kind |-> kind, buckets |-> Sorted(Pairs(buckets)), live |-> {}])
          /\ hm' = Append(hm, Len(mets) + 1) /\ ret' = <<>> /\ UNCHANGED <<regs, cells, hr, once>>
Recorder(m, ls) ==
  LET i == hm[m]
      L == FoldPairs(ls)
      hit == {c \in mets[i].live : c[1] = L}
  IN IF hit # {} THEN hr' = Append(hr, (CHOOSE c \in hit : TRUE)[2]) /\ ret' = <<>> /\ UNCHANGED <<regs, mets, hm, cells, once>>
     ELSE /\ cells' = Append(cells, [kind |-> mets[i].kind, v |-> 0, n |-> 0, le |-> mets[i].buckets, counts |-> [b \in DOMAIN mets[i].buckets |-> 0]])
          /\ mets' = [mets EXCEPT ![i].live = @ \cup {<<L, Len(cells) + 1>>}]
          /\ hr' = Append(hr, Len(cells) + 1) /\ ret' = <<>> /\ UNCHANGED <<regs, hm, once>>
DropLabels(m, ls) == /\ mets' = [mets EXCEPT ![hm[m]].live = {c \in @ : c[1] # FoldPairs(ls)}] /\ ret' = <<>> /\ UNCHANGED <<regs, hm, cells, hr, once>>

(* the first bucket that can hold v; an observation above them all is not counted *)
Slot(c, v) == LET S == {b \in DOMAIN c.le : v <= Key(c.le[b])} IN IF S = {} THEN 0 ELSE CHOOSE b \in S : \A y \in S : b <= y
Put(c, v, k) ==
  CASE c.kind \in {"counter", "dcounter"} -> [c EXCEPT !.v = @ + v]
    [] c.kind \in {"gauge", "dgauge"} -> [c EXCEPT !.v = v]
    [] c.kind = "avg" -> [c EXCEPT !.v = @ + v, !.n = @ + 1]
    [] OTHER -> IF Slot(c, v) = 0 THEN c ELSE [c EXCEPT !.counts[Slot(c, v)] = @ + k, !.v = @ + v * k]
View(c) ==
  CASE c.kind = "avg" -> <<>>
    [] c.kind \in {"hist", "dhist"} -> <<c.v, [b \in DOMAIN c.le |-> <<c.le[b], c.counts[b]>>]>>
    [] OTHER -> <<c.v>>
Rec(r, v, k) == /\ cells' = [cells EXCEPT ![hr[r]] = Put(@, v, k)] /\ ret' = View(cells'[hr[r]]) /\ UNCHANGED <<regs, mets, hm, hr, once>>
Fetch(r) == ret' = View(cells[hr[r]]) /\ UNCHANGED <<regs, mets, hm, cells, hr, once>>
Once(r, name, help, ml, ls, v) ==
  /\ once' = once \cup {[reg |-> r, name |-> name, help |-> help, labels |-> Merge(FoldPairs(ml), FoldPairs(ls)), v |-> v, id |-> Cardinality(once)]}
  /\ ret' = <<>> /\ UNCHANGED <<regs, mets, hm, cells, hr>>

Desc(r) == LET D[i \in 0..Len(regs)] == IF i = 0 THEN {r} ELSE IF regs[i].parent \in D[i - 1] THEN D[i - 1] \cup {i} ELSE D[i - 1] IN D[Len(regs)]
Type(kind) == CASE kind \in {"gauge", "dgauge"} -> "gauge" [] kind \in {"hist", "dhist"} -> "histogram" [] OTHER -> "counter"
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f[n]
ShownName(name, kind) == CASE kind = "gauge" -> name \o "_total" [] kind = "dcounter" -> name \o "_seconds_total" [] kind \in {"dgauge", "dhist"} -> name \o "_seconds" [] OTHER -> name
(* values are reported in seconds / units; a sample shows them in thousandths *)
Scale(kind, v) == IF kind \in {"dcounter", "dgauge", "dhist"} THEN v ELSE v * 1000
Samples(m, L, x) ==
  LET lab == Merge(regs[m.reg].labels, L)
      c == cells[x]
      s(part, le, v) == [src |-> x, ty |-> Type(m.kind), help |-> m.help, name |-> ShownName(m.name, m.kind), part |-> part, labels |-> lab, le |-> le, v |-> v]
  IN IF c.kind \in {"hist", "dhist"} THEN
        LET n == SumTo(c.counts, Len(c.le)) IN
        {s("_bucket", <<IF c.le[b] < 0 THEN -1 ELSE Scale(m.kind, c.le[b])>>, SumTo(c.counts, b) * 1000) : b \in DOMAIN c.le}
        \cup {s("_bucket", <<-1>>, n * 1000), s("_sum", <<>>, Scale(m.kind, c.v)), s("_count", <<>>, n * 1000)}
     ELSE IF c.kind = "avg" THEN {s("", <<>>, (IF c.n = 0 THEN 0 ELSE c.v \div c.n) * 1000)}
     ELSE {s("", <<>>, Scale(m.kind, c.v))}
OfMetric(i) == UNION {Samples(mets[i], x[1], x[2]) : x \in mets[i].live}
OnceOf(o) == IF o.v = <<>> THEN {} ELSE {[src |-> -o.id - 1, ty |-> "gauge", help |-> o.help, name |-> o.name \o "_total", part |-> "", labels |-> o.labels, le |-> <<>>, v |-> o.v[1] * 1000]}
(* a window of averaged observations ends when it is reported *)
Reset(S) == [x \in DOMAIN cells |-> IF cells[x].kind = "avg" /\ (\E i \in S : \E y \in mets[i].live : y[2] = x) THEN [cells[x] EXCEPT !.v = 0, !.n = 0] ELSE cells[x]]
Report(r) ==
  LET D == Desc(r)
      M == {i \in DOMAIN mets : mets[i].reg \in D}
      O == {o \in once : o.reg \in D}
  IN /\ ret' = UNION ({OfMetric(i) : i \in M} \cup {OnceOf(o) : o \in O})
     /\ cells' = Reset(M) /\ once' = once \ O /\ UNCHANGED <<regs, mets, hm, hr>>
ReportMetric(m) == /\ ret' = OfMetric(hm[m]) /\ cells' = Reset({hm[m]}) /\ UNCHANGED <<regs, mets, hm, hr, once>>

(* --- properties of the design --- *)
OneMetricPerName == \A i, j \in DOMAIN mets : (mets[i].reg = mets[j].reg /\ mets[i].name = mets[j].name) => i = j
OneCellPerLabels == \A i \in DOMAIN mets : \A x, y \in mets[i].live : x[1] = y[1] => x = y
CellsNotShared == \A i, j \in DOMAIN mets : i # j => {x[2] : x \in mets[i].live} \cap {x[2] : x \in mets[j].live} = {}
Inherits == \A i \in DOMAIN regs : regs[i].parent # 0 => \A p \in regs[regs[i].parent].labels : \E q \in regs[i].labels : q[1] = p[1]
=============================================================================
