---------------------------- MODULE ConfigTrace ----------------------------
EXTENDS Config, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(o) == E.op = o
SetOf(s) == {s[i] : i \in DOMAIN s}
TInit == l = 1 /\ kind = "data" /\ cfg = <<>>
BadAddr == {"127.0.0.1", "127.0.0.1:99999", "nohost:", "127.0.0.1:x"}
BadHost == {"no such host", ""}
TNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ \/ Is("load") /\ LET file == IF E.from = "file" THEN SetOf(E.file) ELSE {}
                          env == SetOf(E.env)
                          ok == E.from # "missing" /\ Loads(E.kind, file, env)
                      IN /\ E.ok = ok /\ kind' = E.kind
                         /\ IF ok THEN Matches(E.kind, Written(E.kind, file, env), Effective(E.kind, file, env), E.eff) /\ cfg' = <<E.eff>> ELSE cfg' = <<>>
     \/ Is("rewrite") /\ E.ok = (cfg # <<>>) /\ (cfg # <<>> => E.eff = cfg[1]) /\ E.same /\ UNCHANGED vars
     \/ Is("check") /\ UNCHANGED vars
          /\ IF cfg = <<>> \/ kind # "data" THEN ~E.ok ELSE
             LET c == cfg[1]
                 got == SetOf(E.errors)
                 svc == {i \in DOMAIN E.errors : E.errors[i][1] = "service"}
                 wantE == Errors(c, BadAddr, BadHost)
                 nsvc == ServiceErrors(c, BadHost)
                 wantW == IF E.show THEN Warns(c) ELSE {}
             IN /\ E.ok /\ {x \in got : x[1] # "service"} = wantE /\ Cardinality(svc) = nsvc
                /\ SetOf(E.warns) = wantW
                /\ ~E.allclean = (wantE # {} \/ nsvc > 0 \/ ~E.show \/ wantW # {})
                /\ (E.clean \/ E.allclean) = (wantE = {} /\ nsvc = 0)
     \/ Is("keys") /\ SetOf(E.paths) = AllKeys(E.kind) /\ SetOf(E.names) = SetOf(E.want) /\ Len(E.names) = Len(E.want) /\ UNCHANGED vars
     \/ Is("version") /\ UNCHANGED vars
          /\ E.own = E.num \o ", revision: " \o E.hash \o ", build_time: " \o E.time
          /\ E.ws = E.again /\ SubSeq(E.ws, Len(E.ws) - Len(E.hash \o E.time) - Len(", revision: , build_time: ") + 1, Len(E.ws)) = ", revision: " \o E.hash \o ", build_time: " \o E.time
     \/ Is("cli") /\ UNCHANGED vars
          /\ LET env == [data |-> IF E.ekind = "data" THEN SetOf(E.env) ELSE {}, meta |-> IF E.ekind = "meta" THEN SetOf(E.env) ELSE {}]
                 w == Cli(E.args, env)
                 fresh == E.file = (IF E.pre THEN "made" ELSE "none")
                 good(k) == Len(E.eff[k]) = 1 /\ Matches(k, Written(k, {}, env[k]), Effective(k, {}, env[k]), E.eff[k][1])
             IN CASE w.what = "usage" -> E.rc = 0 /\ E.usage /\ E.lines = <<>> /\ fresh
                  [] w.what = "version" -> E.rc = 0 /\ Len(E.lines) = 1 /\ SubSeq(E.lines[1], 1, 14) = "cnosdb-config " /\ Len(E.lines[1]) > 14 /\ fresh
                  [] w.what = "keys" -> E.rc = 0 /\ SetOf(E.want[w.kind]) \subseteq SetOf(E.lines) /\ Len(E.lines) = Len(E.want[w.kind]) + 1 /\ fresh
                  [] w.what = "fail" -> E.rc = 1 /\ E.lines = <<>> /\ E.said /\ ~E.usage /\ fresh
                  [] w.what = "stdout" -> E.rc = 0 /\ (E.pre \/ good(w.kind)) /\ E.lines # <<>> /\ fresh
                  [] w.what = "file" -> E.rc = 0 /\ E.lines = <<>> /\ E.file = "made" /\ good(w.kind)
TSpec == TInit /\ [][TNext]_<<vars, l>>
TraceAccepted == LET d == TLCGet("stats").diameter
                 IN d - 1 = Len(Trace) \/ Print("REJECT@" \o ToString(d), FALSE)
=============================================================================
