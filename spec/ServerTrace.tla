----------------------------- MODULE ServerTrace -----------------------------
(***************************************************************************)
(* Validates sessions recorded from the real server against Server.tla.    *)
(* Each event holds the client message (`a`) and the messages the server   *)
(* sent for it (`o`); results whose text/version cannot be told apart by   *)
(* looking at them carry the set `c` of indistinguishable alternatives.    *)
(***************************************************************************)
EXTENDS Server, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

Range(s) == {s[i] : i \in 1..Len(s)}

Matches(exp, obs) ==
    /\ exp.k = obs.k
    /\ CASE exp.k = "publish"   -> exp.u = obs.u /\ exp.v = obs.v /\ <<exp.t, exp.l>> \in Range(obs.c)
         [] exp.k = "clear"     -> exp.u = obs.u
         [] exp.k = "error"     -> exp.code = obs.code
         [] exp.k = "result"    -> exp.q = obs.q /\ exp.u = obs.u /\ <<exp.t, exp.l>> \in Range(obs.c)
         [] exp.k = "applyEdit" -> exp.c = obs.c0 /\ exp.u = obs.u /\ <<exp.t, exp.l>> \in Range(obs.c)
         [] OTHER               -> TRUE

\* A new session begins.
Reset ==
    /\ Trace[l].a.a = "init"
    /\ docs' = [u \in Uris |-> Closed]
    /\ lang' = [u \in Uris |-> "none"]
    /\ disk' = [u \in Uris |-> Trace[l].disk[u]]
    /\ fuel' = 0
    /\ phase' = "up"
    /\ caps' = [create |-> Trace[l].caps.create, resolve |-> Trace[l].caps.resolve]
    /\ owed' = {}
    /\ shown' = [u \in Uris |-> Hidden]
    /\ act' = [a |-> "init"]
    /\ out' = <<>>

Do(a) ==
    CASE a.a = "open"      -> Open(a.u, a.id, a.t, a.v)
      [] a.a = "change"    -> Change(a.u, a.ts, a.v)
      [] a.a = "close"     -> Close(a.u)
      [] a.a = "ignored"   -> Ignored(a.n)
      [] a.a = "stray"     -> StrayAnswer(a.id)
      [] a.a = "query"     -> Query(a.q, a.u, a.p)
      [] a.a = "badparams" -> BadParams(a.m)
      [] a.a = "unknown"   -> UnknownRequest(a.m)
      [] a.a = "create"    -> Create(a.arg)
      [] a.a = "migrate"   -> Migrate(a.u, a.arg)
      [] a.a = "extract"   -> Extract(a.u, a.r)
      [] a.a = "resolve"   -> Resolve(a.u, a.c, a.r)
      [] a.a = "unknowncommand" -> UnknownCommand
      [] a.a = "answer"    -> Answer(a.c)
      [] a.a = "disk"      -> SetDisk(a.u, a.d)
      [] a.a = "shutdown"  -> Shutdown
      [] a.a = "exit"      -> Exit

Step ==
    /\ Trace[l].a.a # "init"
    /\ \/ phase = "up"
       \/ phase = "down" /\ Trace[l].a.a = "exit"
    /\ Do(Trace[l].a)
    /\ Len(out') = Len(Trace[l].o)
    /\ \A i \in 1..Len(out') : Matches(out'[i], Trace[l].o[i])

TraceInit == Init /\ disk = [u \in Uris |-> CHOOSE d \in Disks : TRUE] /\ caps = [create |-> FALSE, resolve |-> FALSE] /\ l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Reset \/ Step)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>

TraceView == <<state, l>>
Consumed == TLCGet("stats").diameter - 1
TraceAccepted == PrintT(ToJson([consumed |-> Consumed, len |-> Len(Trace)]))
=============================================================================
