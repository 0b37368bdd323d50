-------------------------------- MODULE Lsm --------------------------------
\* How a vnode keeps the promise of Storage: a log, a memory table, immutable files with
\* tombstones, compaction, log purging, crash and replay, snapshots.  The read view over all of
\* that always equals the ghost contents, the plain map the user thinks of.
\* A point has a series and a time; a cell is a field of a point; values are write numbers.
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Series, Times, Fields, MaxOps
Pts == Series \X Times
Cells == Pts \X Fields
None == 0

VARIABLES log,      \* committed commands: [k |-> "w", c |-> cells, v] or [k |-> "d", p |-> points] or [k |-> "r", s |-> snapshot]
          first,    \* entries before this index are purged
          done,     \* index of the last entry the files hold (replay starts after it)
          mem,      \* memory table: cell -> value
          memseq,   \* index of the last write in the memory table
          files,    \* sequence, oldest first: [d |-> cell -> value, t |-> set of deleted cells]
          snap,     \* snapshots: <<>> or <<[f |-> files, g |-> contents]>>
          ghost, n
vars == <<log, first, done, mem, memseq, files, snap, ghost, n>>

Empty == TLCEval([c \in Cells |-> None])
Over(new, old) == TLCEval([c \in Cells |-> IF new[c] # None THEN new[c] ELSE old[c]])
Seen(f) == TLCEval([c \in Cells |-> IF c \in f.t THEN None ELSE f.d[c]])
RECURSIVE Fold(_)
Fold(fs) == IF fs = <<>> THEN Empty ELSE Over(Seen(fs[Len(fs)]), Fold(SubSeq(fs, 1, Len(fs) - 1)))
ViewOf(m, fs) == Over(m, Fold(fs))

Init == log = <<>> /\ first = 1 /\ done = 0 /\ mem = Empty /\ memseq = 0 /\ files = <<>> /\ snap = <<>> /\ ghost = Empty /\ n = 0

\* the effect of one command on memory table and files
Kill(m, P) == TLCEval([c \in Cells |-> IF c[1] \in P THEN None ELSE m[c]])
KillFiles(fs, P) == TLCEval([k \in DOMAIN fs |-> [fs[k] EXCEPT !.t = @ \cup {c \in Cells : c[1] \in P /\ fs[k].d[c] # None}]])
Do(S, e, i) ==
  CASE e.k = "w" -> [m |-> TLCEval([c \in Cells |-> IF c \in e.c THEN e.v ELSE S.m[c]]), q |-> i, f |-> S.f]
    [] e.k = "d" -> [m |-> Kill(S.m, e.p), q |-> S.q, f |-> KillFiles(S.f, e.p)]
RECURSIVE Replay(_, _)
Replay(S, i) == IF i > Len(log) THEN S ELSE Replay(Do(S, log[i], i), i + 1)

Step == n < MaxOps /\ n' = n + 1
Commit(e) == log' = Append(log, e)
Put(cs) == /\ Step /\ cs # {} /\ Commit([k |-> "w", c |-> cs, v |-> n + 1])
           /\ LET S == Do([m |-> mem, q |-> memseq, f |-> files], log'[Len(log')], Len(log')) IN mem' = S.m /\ memseq' = S.q
           /\ ghost' = TLCEval([c \in Cells |-> IF c \in cs THEN n + 1 ELSE ghost[c]])
           /\ UNCHANGED <<first, done, files, snap>>
Del(P) == /\ Step /\ Commit([k |-> "d", p |-> P])
          /\ mem' = Kill(mem, P) /\ files' = KillFiles(files, P) /\ ghost' = Kill(ghost, P)
          /\ UNCHANGED <<first, done, memseq, snap>>
FlushF == IF mem = Empty THEN files ELSE Append(files, [d |-> mem, t |-> {}])
Flush == /\ Step /\ files' = FlushF /\ mem' = Empty /\ done' = IF memseq > done THEN memseq ELSE done
         /\ UNCHANGED <<log, first, memseq, snap, ghost>>
\* any run of files that follow each other becomes one; deleted cells disappear
Compact(a, b) ==
  /\ Step /\ 1 <= a /\ a <= b /\ b <= Len(files)
  /\ LET one == [d |-> Fold(SubSeq(files, a, b)), t |-> {}]
     IN files' = SubSeq(files, 1, a - 1) \o (IF one.d = Empty THEN <<>> ELSE <<one>>) \o SubSeq(files, b + 1, Len(files))
  /\ UNCHANGED <<log, first, done, mem, memseq, snap, ghost>>
\* only what the files hold may be forgotten
Purge == Step /\ first' = done + 1 /\ UNCHANGED <<log, done, mem, memseq, files, snap, ghost>>
\* the memory table is lost; the log after `done` is applied to what the files hold
Crash == /\ Step
         /\ LET S == Replay([m |-> Empty, q |-> done, f |-> files], done + 1)
            IN mem' = S.m /\ memseq' = S.q /\ files' = S.f
         /\ UNCHANGED <<log, first, done, snap, ghost>>
\* a snapshot flushes and remembers the files; restoring starts from them, after every entry so far
Save == /\ Step /\ files' = FlushF /\ mem' = Empty /\ done' = (IF memseq > done THEN memseq ELSE done) /\ snap' = <<[f |-> FlushF, g |-> ghost]>>
        /\ UNCHANGED <<log, first, memseq, ghost>>
Restore == /\ Step /\ snap # <<>> /\ files' = snap[1].f /\ mem' = Empty /\ ghost' = snap[1].g
           /\ done' = Len(log) /\ memseq' = Len(log)
           /\ UNCHANGED <<log, first, snap>>

Faithful == \A c \in Cells : ViewOf(mem, files)[c] = ghost[c]
\* what a crash would need is still there, and a crash at any time changes nothing the user sees
Replayable == first <= done + 1
CrashSafe == LET S == Replay([m |-> Empty, q |-> done, f |-> files], done + 1) IN ViewOf(S.m, S.f) = ghost
=============================================================================
