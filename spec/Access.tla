------------------------------- MODULE Access -------------------------------
(* Who may do what.  A privilege is [k, t, d, p]: the kind of thing, the      *)
(* owner (tenant or user id, 0 = every one), the database ("*" = every one)   *)
(* and the level on it.  A set of privileges allows whatever one of its       *)
(* elements covers.                                                           *)
EXTENDS Integers, Sequences, FiniteSets
AnyId == 0
P(k, t, d, p) == [k |-> k, t |-> t, d |-> d, p |-> p]
Level(p) == CASE p = "r" -> 1 [] p = "w" -> 2 [] p = "a" -> 3 [] OTHER -> 0
Covers(h, w) ==
  /\ h.k = w.k
  /\ h.k # "root" => (h.t = AnyId \/ h.t = w.t)
  /\ h.k = "db" => (h.d = "*" \/ h.d = w.d) /\ Level(h.p) >= Level(w.p)
Allows(H, w) == \E h \in H : Covers(h, w)

Admin == {P("root", 0, "", ""), P("ten", 0, "", ""), P("user", 0, "", ""), P("sys", 0, "", ""), P("mem", 0, "", ""), P("role", 0, "", ""), P("db", 0, "*", "a")}
OfSys(role, t) ==
  IF role = "owner" THEN {P(k, t, "", "") : k \in {"ten", "sys", "mem", "role"}} \cup {P("db", t, "*", "a")}
  ELSE IF role = "member" THEN {P("db", t, "*", "r")} ELSE {}
OfCustom(sys, pr, t) == OfSys(sys, t) \cup {P("db", t, q[1], q[2]) : q \in pr}
Self(id) == P("user", id, "", "")
=============================================================================
