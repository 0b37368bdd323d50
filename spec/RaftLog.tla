------------------------------- MODULE RaftLog -------------------------------
(* What one replica keeps for the consensus protocol of its replica groups: the log of entries, the
   vote, what was purged and applied, the memberships, and the snapshots of the state machine.
   An entry is <<index, term, node, kind, tag>> (kind 0 blank, 1 write, 2 membership); a log id is
   <<term, node, index>>; an optional value is <<>> or <<v>>.

   log holds the entries base, base+1, ..; the ones below lo are purged.  A restart may bring purged
   entries back (a log file is only removed as a whole): they are the ones that were there.  A restart
   of a write-ahead log may drop what was not applied yet. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES st, store, lag, out
vars == <<st, store, lag, out>>
Default == [at |-> <<>>, tag |-> 0]
Fresh == [log |-> <<>>, base |-> 0, lo |-> 0, purged |-> <<>>, vote |-> <<>>, applied |-> <<>>, mem |-> Default, mems |-> <<>>,
          items |-> <<>>, snap |-> <<>>, snapAt |-> <<>>, init |-> 0, name |-> <<>>]

Last(r) == r.base + Len(r.log) - 1
Visible(r, i) == i >= r.lo /\ i <= Last(r)
At(r, i) == r.log[i - r.base + 1]
IdOf(e) == <<e[2], e[3], e[1]>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Range(r, a, b) == LET x == Max(a, r.lo) y == Min(b, Last(r)) IN IF x > y THEN <<>> ELSE SubSeq(r.log, x - r.base + 1, y - r.base + 1)
AppliedTo(r) == IF r.applied = <<>> THEN -1 ELSE r.applied[1][3]

(* first and last index of the log *)
Span(r) == IF r.lo > Last(r) THEN (IF store = "wal" THEN <<>> ELSE <<0, 0>>) ELSE <<r.lo, Last(r)>>
LastId(r) == IF r.lo > Last(r) THEN r.purged ELSE <<IdOf(At(r, Last(r)))>>

(* the log id of the entry a snapshot ends with *)
IdAt(r, i) == IF Visible(r, i) THEN <<IdOf(At(r, i))>>
              ELSE IF r.purged # <<>> /\ r.purged[1][3] = i THEN r.purged
              ELSE IF r.snapAt # <<>> /\ r.snapAt[1][3] = i THEN r.snapAt
              ELSE IF r.applied # <<>> /\ r.applied[1][3] = i THEN r.applied
              ELSE <<>>
(* the members as of an entry *)
MemAt(r, i) == LET s == SelectSeq(r.mems, LAMBDA m : m.at[1][3] <= i) IN IF s = <<>> THEN r.mem ELSE s[Len(s)]
IdStr(l) == IF l = <<>> THEN "" ELSE "T" \o ToString(l[1][1]) \o "-N" \o ToString(l[1][2]) \o "-" \o ToString(l[1][3])
Upto(items, i) == SelectSeq(items, LAMBDA x : x[1] <= i)
Snapshot(r, i, data) == [at |-> IdAt(r, i), mem |-> MemAt(r, i), id |-> IdStr(IdAt(r, i)), data |-> data]
Current(r) == IF r.snap = <<>> THEN <<>> ELSE <<Snapshot(r, r.snap[1].i, r.snap[1].data)>>
(* the state machine is asked for a snapshot of what was applied; it may trail *)
Snapped(r) == IF r.applied = <<>> THEN r
              ELSE LET floor == IF r.snap = <<>> THEN 0 ELSE r.snap[1].i
                       i == Max(floor, Max(0, r.applied[1][3] - lag))
                   IN [r EXCEPT !.snap = <<[i |-> i, data |-> Upto(r.items, i)]>>]
SetMem(r, m) == [r EXCEPT !.mem = m, !.mems = IF m.at = <<>> THEN @ ELSE SelectSeq(@, LAMBDA x : x.at[1][3] < m.at[1][3]) \o <<m>> \o SelectSeq(@, LAMBDA x : x.at[1][3] > m.at[1][3])]

Upd(g, r) == st' = [st EXCEPT ![g] = r] /\ UNCHANGED <<store, lag>>
Read(o) == out' = o /\ UNCHANGED <<st, store, lag>>

(* entries of the leader replace whatever the log held from there on *)
Put(g, from, es) ==
  LET r == st[g]
      new == [k \in 1..Len(es) |-> <<from + k - 1, es[k][1], es[k][2], es[k][3], es[k][4]>>]
      n == IF es = <<>> THEN r ELSE [r EXCEPT !.log = SubSeq(@, 1, from - r.base) \o new]
  IN Upd(g, n) /\ out' = Span(n)
Cut(g, i) == LET r == st[g] n == [r EXCEPT !.log = IF i > Last(r) THEN @ ELSE SubSeq(@, 1, i - r.base)] IN Upd(g, n) /\ out' = Span(n)
Purge(g, at) ==
  LET r == st[g] i == at[3]
      n == IF i >= Last(r) THEN [r EXCEPT !.purged = <<at>>, !.log = <<>>, !.base = Max(i + 1, r.lo), !.lo = Max(i + 1, r.lo)]
           ELSE [r EXCEPT !.purged = <<at>>, !.lo = Max(@, i + 1)]
  IN Upd(g, n) /\ out' = Span(n)
RECURSIVE Applied(_, _)
Applied(r, es) ==
  IF es = <<>> THEN r
  ELSE LET e == es[1]
           n == [r EXCEPT !.applied = <<IdOf(e)>>, !.items = IF e[4] = 1 THEN @ \o <<<<e[1], e[5]>>>> ELSE @]
       IN Applied(IF e[4] = 2 THEN SetMem(n, [at |-> <<IdOf(e)>>, tag |-> e[5]]) ELSE n, Tail(es))
Apply(g, i) ==
  LET r == st[g] es == Range(r, AppliedTo(r) + 1, i)
  IN Upd(g, Applied(r, es)) /\ out' = [k \in 1..Len(es) |-> IF es[k][4] = 1 THEN es[k][5] ELSE 0]
Get(g, a, b) == Read(Range(st[g], a, b))
State(g) == Read([purged |-> st[g].purged, last |-> LastId(st[g]), span |-> Span(st[g])])
Vote(g, v) == Upd(g, [st[g] EXCEPT !.vote = <<v>>]) /\ out' = <<>>
Voted(g) == Read(st[g].vote)
State2(g) == Read([at |-> st[g].applied, mem |-> st[g].mem, items |-> st[g].items])
Build(g) ==
  LET n == Snapped(st[g])
  IN Upd(g, n) /\ out' = IF n.applied = <<>> THEN [at |-> <<>>, mem |-> Default, id |-> "", data |-> <<>>] ELSE Current(n)[1]
ReadSnap(g) == Read(Current(st[g]))
Install(g, src) ==
  IF Current(st[src]) = <<>> THEN Read(<<>>)
  ELSE LET s == Current(st[src])[1]
           at == IF s.at = <<>> THEN <<0, 0, 0>> ELSE s.at[1]
           n == [SetMem([st[g] EXCEPT !.applied = <<at>>, !.snapAt = <<at>>, !.items = s.data], s.mem) EXCEPT !.snap = <<[i |-> at[3], data |-> s.data]>>]
       IN Upd(g, n) /\ out' = <<s>>
Init1(g) == Upd(g, [st[g] EXCEPT !.init = 1]) /\ out' = <<>>
IsInit(g) == Read(st[g].init)
Name(g, tenant, raft) == Upd(g, [st[g] EXCEPT !.name = <<<<g, raft, tenant, 1>>>>]) /\ out' = <<>>
Destroy(g) == Upd(g, Fresh) /\ out' = 0

(* a restart; the log of a group then starts at e[1] and ends at e[2] *)
Restarted(r, e) == Snapped([r EXCEPT !.log = SubSeq(r.log, 1, Max(0, e[2] - r.base + 1)), !.lo = e[1]])
Starts(r) == IF store = "wal" THEN r.base..r.lo ELSE {r.lo}
Ends(r) == IF store = "wal" /\ r.applied # <<>> THEN Min(AppliedTo(r), Last(r))..Last(r) ELSE {Last(r)}
Reopen(f) == st' = [g \in DOMAIN st |-> Restarted(st[g], f[g])] /\ out' = <<>> /\ UNCHANGED <<store, lag>>

(* -- properties -- *)
Contiguous == \A g \in DOMAIN st : \A k \in 1..Len(st[g].log) : st[g].log[k][1] = st[g].base + k - 1
TermsGrow == \A g \in DOMAIN st : \A k \in 1..(Len(st[g].log) - 1) : st[g].log[k][2] <= st[g].log[k + 1][2]
NeverBehind == \A g \in DOMAIN st : LET r == st[g] IN (r.purged # <<>> => r.purged[1][3] <= AppliedTo(r)) /\ (r.snap # <<>> => r.snap[1].i <= AppliedTo(r))
(* a snapshot says where it ends, and carries exactly the writes up to there *)
SnapshotsNamed == \A g \in DOMAIN st : LET r == st[g] IN r.snap # <<>> => (Current(r)[1].at # <<>> /\ r.snap[1].data = Upto(r.items, r.snap[1].i))
(* what was applied stays, unless it was purged *)
AppliedKept == [][\A g \in DOMAIN st : LET r == st[g] IN \A i \in r.lo..Min(Last(r), AppliedTo(r)) :
                   (Visible(st'[g], i) /\ At(st'[g], i) = At(r, i)) \/ (st'[g].purged # <<>> /\ st'[g].purged[1][3] >= i)]_vars
AppliedForward == [][\A g \in DOMAIN st : AppliedTo(st'[g]) >= AppliedTo(st[g])]_vars
=============================================================================
