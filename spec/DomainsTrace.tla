--------------------------- MODULE DomainsTrace ---------------------------
EXTENDS Domains, Json, IOUtils, Big
VARIABLE l
tvars == <<vars, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(op) == l <= Len(Trace) /\ E.op = op /\ l' = l + 1
SetOf(q) == {q[k] : k \in DOMAIN q}
Same(q, S) == SetOf(q) = S /\ Len(q) = Cardinality(S)

TPair == Is("pair") /\ UNCHANGED vars /\
  LET A == Span(E.a)  B == Span(E.b) IN
  /\ E.overlaps = (A \cap B # {}) /\ E.includes = (B \subseteq A)
  /\ Same(E.inter, A \cap B) /\ Same(E.merge, Hull(A \cup B))
  /\ Same(E.left, Below(A, B)) /\ Same(E.right, Above(A, B)) /\ Same(E.a_set, A)
  /\ ~E.isnone /\ E.bound = (A = Line)
  /\ (\E c \in Clusters : {E.a[1], E.a[2]} \subseteq c) => E.total = <<E.a[2] - E.a[1] + 1>>
TBounds == Is("bounds") /\ UNCHANGED vars /\
  LET S == {t \in Line : (CASE E.lk = "in" -> t >= E.lv [] E.lk = "ex" -> t > E.lv [] OTHER -> TRUE)
                      /\ (CASE E.hk = "in" -> t <= E.hv [] E.hk = "ex" -> t < E.hv [] OTHER -> TRUE)} IN
  Same(E.set, S) /\ (E.isnone => S = {}) /\ ((S = {}) => (E.isnone \/ E.set = <<>>))

Look(S) == /\ Same(E.set, S) /\ Same(E.contains, S) /\ E.sorted
           /\ E.empty = (S = {}) /\ E.all = (S = Line)
           /\ E.min = (IF S = {} THEN 0 ELSE AtProbe(MinOf(S))) /\ E.max = (IF S = {} THEN 0 ELSE AtProbe(MaxOf(S)))
           /\ Same(E.span, IF S = {} THEN {} ELSE Hull(S))
TTrs == Is("trs") /\ SetTo(CASE E.how = "new" -> UnionOf(E.rs) [] E.how = "all" -> Line [] E.how = "one" -> Span(E.rs[1]) [] OTHER -> {}) /\ Look(trs')
TPush == Is("push") /\ Push(E.r) /\ Look(trs')
TExtend == Is("extend") /\ Extend(E.rs) /\ Look(trs')
TInter == Is("inter") /\ Inter(E.r) /\ Look(trs') /\ E.isnone = (trs' = {})
TExcl == Is("excl") /\ Excl(E.r) /\ Look(trs')
TExcls == Is("excls") /\ Excls(E.rs) /\ Look(trs')
TAsk == Is("ask") /\ UNCHANGED vars /\
  LET R == Span(E.r) IN
  E.overlaps = (trs \cap R # {}) /\ E.includes = (R \subseteq trs) /\ Same(E.rest, R \ trs) /\ E.restnone = (R \subseteq trs)

ColsAre(v, D) == /\ v.none = D.none /\ v.all = (~D.none /\ DOMAIN D.dom = {})
                 /\ DOMAIN v.cols = DOMAIN D.dom /\ \A c \in DOMAIN D.dom : Same(v.cols[c], D.dom[c])
                 /\ v.clean /\ v.back /\ v.shown
Other == AddAll(IF E.onone THEN None ELSE All, E.cs)
TCd == Is("cd") /\ SetCd(CASE E.how = "none" -> None [] E.how = "of" -> PutCol(All, E.c, DomSet(E.d)) [] OTHER -> All) /\ ColsAre(E, cd')
TCInter == Is("cinter") /\ CMeet(Other) /\ ColsAre(E, cd')
TCUnion == Is("cunion") /\ CJoin(Other) /\ ColsAre(E, cd')
TCAdd == Is("cadd") /\ CAdd(E.c, E.d) /\ ColsAre(E, cd')
TCAlt == Is("calt") /\ CAlt(E.c, E.d) /\ ColsAre(E, cd')

\* a filter: no row it is true for is ruled out; what DELETE makes of it rules out every other row
Kind(c) == CASE c \in {"t"} -> "t" [] c \in {"s1", "s2"} -> "s" [] c = "i1" -> "i" [] c = "f1" -> "f" [] c = "u1" -> "u" [] c = "b1" -> "b"
Vals(c) == CASE c = "t" -> {1, 2, 4, 5, 6, 7, 11} [] c \in {"s1", "s2"} -> {0, 1, 2, 3, 4, 5, NullV} [] c = "b1" -> {0, 1, NullV}
             [] c = "u1" -> {0, 1, 2, 3, NullV} [] OTHER -> {-2, -1, 0, 1, 2, NullV}
RECURSIVE RowsOver(_)
RowsOver(C) == IF C = {} THEN {<<>>} ELSE LET c == CHOOSE x \in C : TRUE IN {(c :> v) @@ r : v \in Vals(c), r \in RowsOver(C \ {c})}
AsDom(v) == [none |-> v.none, dom |-> TLCEval([c \in DOMAIN v.cols |-> SetOf(v.cols[c])])]
Tags == {"s1", "s2"}
TExpr == Is("expr") /\ UNCHANGED vars /\
  LET C == Refs(E.e) \cup {"t"}
      R == RowsOver(C)
      D == AsDom(E.dom)  G == AsDom(E.tags)  TS == SetOf(E.times)
      inTs(r) == r["t"] \in TS
      plain == Conj(E.e) /\ "b1" \notin C
      notnull(r) == \A c \in C : r[c] # NullV
  IN /\ DOMAIN D.dom \subseteq C /\ DOMAIN G.dom \subseteq Tags \cap C
     /\ \A r \in R : (Eval(E.e, r) = T3) => (Admits(D, r) /\ Admits(G, r) /\ inTs(r))
     /\ plain => (\A r \in R : (notnull(r) /\ Admits(D, r)) => Eval(E.e, r) = T3)
     /\ (plain /\ Refs(E.e) \subseteq Tags \cup {"t"}) => (E.del # <<>> /\ (\A r \in R : (notnull(r) /\ Admits(G, r) /\ inTs(r)) => Eval(E.e, r) = T3))
     /\ (E.del # <<>> /\ Refs(E.e) \subseteq Tags \cup {"t"}) =>
          LET GD == AsDom(E.del.tags)  TD == SetOf(E.del.times) IN
          \A r \in R : notnull(r) => ((Admits(GD, r) /\ r["t"] \in TD) = (Eval(E.e, r) = T3))

TInit == Init /\ l = 1
TNext == TPair \/ TBounds \/ TTrs \/ TPush \/ TExtend \/ TInter \/ TExcl \/ TExcls \/ TAsk \/ TCd \/ TCInter \/ TCUnion \/ TCAdd \/ TCAlt \/ TExpr
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
