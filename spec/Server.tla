------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The ink! language server as seen by its client: one action per message  *)
(* the client can send (or file system change it can make), each producing *)
(* the exact sequence of messages the server sends before it accepts the   *)
(* next one.  Document texts and analysis results are opaque: an answer is *)
(* modelled as "the result of query q on text t in language version l",    *)
(* and the conformance driver resolves that with the analysis library.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS
    Uris,        \* documents
    Texts,       \* document contents
    Vers,        \* client supplied document versions
    Queries,     \* document queries (completion, hover, ...)
    Disks,       \* what the manifest next to a document says: subset of {"v4","v5","absent","broken"}
    Alphabet,    \* enabled classes of client messages
    MaxOpen      \* bound on simultaneously open documents

VARIABLES
    docs,        \* [Uris -> Closed or [text, ver]] : what the client told the server
    lang,        \* [Uris -> {"none","4","5"}]      : language version of the analysed snapshot
    disk,        \* [Uris -> Disks]                 : manifest on disk
    fuel,        \* number of upcoming updates which must re-detect the language version
    phase,       \* "up" | "down" (after shutdown) | "ended"
    caps,        \* [create: BOOLEAN, resolve: BOOLEAN] : client capabilities, fixed for the session
    owed,        \* workspace edits the client has not answered yet
    shown,       \* [Uris -> what the client last saw published]
    act,         \* last client message              (observation)
    out          \* messages the server sent for it  (observation)

state == <<docs, lang, disk, fuel, phase, caps, owed, shown>>
vars  == <<state, act, out>>

Closed == [text |-> "-", ver |-> 0]
Hidden == [text |-> "-", ver |-> 0, lang |-> "none"]
IsOpen(u) == docs[u] # Closed

\* The language version the project of document u declares (defaults to 4).
Declared(u) == IF disk[u] = "v5" THEN "5" ELSE "4"
HasManifest(u) == disk[u] \in {"v4", "v5"}

--------------------------------------------------------------------------
(* Server messages *)
Publish(u, t, v, l) == [k |-> "publish", u |-> u, t |-> t, v |-> v, l |-> l]
Clear(u)            == [k |-> "clear", u |-> u]
Null                == [k |-> "null"]
Err(code)           == [k |-> "error", code |-> code]
Result(q, u, t, l)  == [k |-> "result", q |-> q, u |-> u, t |-> t, l |-> l]
ApplyEdit(c, u, t, l) == [k |-> "applyEdit", c |-> c, u |-> u, t |-> t, l |-> l]
ShowDocument        == [k |-> "showDocument"]

IsResponse(m) == m.k \in {"null", "error", "result"}

InternalError == "internal"
InvalidParams == "params"
MethodNotFound == "method"

--------------------------------------------------------------------------
Init ==
    /\ docs = [u \in Uris |-> Closed]
    /\ lang = [u \in Uris |-> "none"]
    /\ disk \in [Uris -> Disks]
    /\ fuel = 0
    /\ phase = "up"
    /\ caps \in (IF "command" \in Alphabet THEN [create: BOOLEAN, resolve: BOOLEAN]
                 ELSE {[create |-> FALSE, resolve |-> FALSE]})
    /\ owed = {}
    /\ shown = [u \in Uris |-> Hidden]
    /\ act = [a |-> "init"]
    /\ out = <<>>

\* What happens when the content of document u becomes t: a new snapshot is analysed and published.
Update(u, t, v) ==
    LET l == IF fuel > 0 THEN Declared(u)
             ELSE IF lang[u] # "none" THEN lang[u]
             ELSE Declared(u)
    IN  /\ docs' = [docs EXCEPT ![u] = [text |-> t, ver |-> v]]
        /\ lang' = [lang EXCEPT ![u] = l]
        /\ fuel' = IF fuel > 0 THEN fuel - 1 ELSE 0
        /\ shown' = [shown EXCEPT ![u] = [text |-> t, ver |-> v, lang |-> l]]
        /\ out' = << Publish(u, t, v, l) >>
        /\ UNCHANGED <<disk, phase, caps, owed>>

Silent == /\ out' = <<>> /\ UNCHANGED state
Reply(m) == /\ out' = <<m>> /\ UNCHANGED state

(* Document synchronisation *)
Open(u, id, t, v) ==
    /\ "sync" \in Alphabet
    /\ act' = [a |-> "open", u |-> u, id |-> id, t |-> t, v |-> v]
    /\ IF id = "rust" THEN Update(u, t, v) ELSE Silent

Change(u, ts, v) ==
    /\ "sync" \in Alphabet
    /\ act' = [a |-> "change", u |-> u, ts |-> ts, v |-> v]
    /\ IF IsOpen(u) /\ ts # <<>> THEN Update(u, ts[Len(ts)], v) ELSE Silent

Close(u) ==
    /\ "sync" \in Alphabet
    /\ act' = [a |-> "close", u |-> u]
    /\ IF IsOpen(u)
       THEN /\ docs' = [docs EXCEPT ![u] = Closed]
            /\ lang' = [lang EXCEPT ![u] = "none"]
            /\ shown' = [shown EXCEPT ![u] = Hidden]
            /\ out' = << Clear(u) >>
            /\ UNCHANGED <<disk, fuel, phase, caps, owed>>
       ELSE Silent

Ignored(n) ==
    /\ "ignored" \in Alphabet
    /\ act' = [a |-> "ignored", n |-> n]
    /\ Silent

(* Queries *)
Query(q, u, p) ==
    /\ "query" \in Alphabet
    /\ act' = [a |-> "query", q |-> q, u |-> u, p |-> p]
    /\ Reply(IF ~IsOpen(u) THEN Null
             ELSE IF p = "bad" THEN Err(InternalError)
             ELSE Result(q, u, docs[u].text, lang[u]))

BadParams(m) ==
    /\ "malformed" \in Alphabet
    /\ act' = [a |-> "badparams", m |-> m]
    /\ Reply(Err(InvalidParams))

UnknownRequest(m) ==
    /\ "malformed" \in Alphabet
    /\ act' = [a |-> "unknown", m |-> m]
    /\ Reply(Err(MethodNotFound))

(* Commands *)
Create(arg) ==
    /\ "command" \in Alphabet
    /\ act' = [a |-> "create", arg |-> arg]
    /\ IF arg # "good" THEN Reply(Err(InternalError))
       ELSE IF caps.create
       THEN /\ out' = << Null, ApplyEdit("create", "-", "-", "-") >>
            /\ owed' = owed \cup {"create"}
            /\ UNCHANGED <<docs, lang, disk, fuel, phase, caps, shown>>
       ELSE Reply(Result("create", "-", "-", "-"))

\* Migration is attempted through a command or by resolving a code action; either way the language
\* version is re-detected by the next two updates (whatever the outcome).
CanMigrate(u) == IsOpen(u) /\ HasManifest(u)

Migrate(u, arg) ==
    /\ "command" \in Alphabet \/ "migrate" \in Alphabet
    /\ act' = [a |-> "migrate", u |-> u, arg |-> arg]
    /\ fuel' = 2
    /\ IF arg = "good" /\ CanMigrate(u)
       THEN /\ out' = << Null, ApplyEdit("migrate", u, docs[u].text, lang[u]) >>
            /\ owed' = owed \cup {"migrate"}
       ELSE /\ out' = << Err(InternalError) >>
            /\ owed' = owed
    /\ UNCHANGED <<docs, lang, disk, phase, caps, shown>>

CanExtract(u, r) == IsOpen(u) /\ r = "event" /\ HasManifest(u)

Extract(u, r) ==
    /\ "command" \in Alphabet
    /\ act' = [a |-> "extract", u |-> u, r |-> r]
    /\ IF CanExtract(u, r)
       THEN IF caps.create
            THEN /\ out' = << Null, ApplyEdit("extract", u, docs[u].text, lang[u]) >>
                 /\ owed' = owed \cup {"extract"}
                 /\ UNCHANGED <<docs, lang, disk, fuel, phase, caps, shown>>
            ELSE Reply(Result("extract", u, docs[u].text, lang[u]))
       ELSE Reply(Err(InternalError))

Resolve(u, c, r) ==
    /\ "command" \in Alphabet
    /\ act' = [a |-> "resolve", u |-> u, c |-> c, r |-> r]
    /\ out' = << CASE c = "migrate" /\ r # "noargs" /\ CanMigrate(u) -> Result("resolve-migrate", u, docs[u].text, lang[u])
                   [] c = "extract" /\ CanExtract(u, r) -> Result("resolve-extract", u, docs[u].text, lang[u])
                   [] OTHER -> Err(InternalError) >>
    /\ fuel' = IF c = "migrate" THEN 2 ELSE fuel
    /\ UNCHANGED <<docs, lang, disk, phase, caps, owed, shown>>

UnknownCommand ==
    /\ "command" \in Alphabet
    /\ act' = [a |-> "unknowncommand"]
    /\ Reply(Err(InternalError))

\* The client answers a workspace edit request of the server.
Answer(c) ==
    /\ c \in owed
    /\ act' = [a |-> "answer", c |-> c]
    /\ owed' = owed \ {c}
    /\ out' = IF c = "create" THEN << ShowDocument >> ELSE <<>>
    /\ UNCHANGED <<docs, lang, disk, fuel, phase, caps, shown>>

\* A response the server did not ask for.
StrayAnswer(id) ==
    /\ "ignored" \in Alphabet
    /\ act' = [a |-> "stray", id |-> id]
    /\ Silent

(* Environment: the manifest changes on disk. *)
SetDisk(u, d) ==
    /\ "disk" \in Alphabet
    /\ d # disk[u]
    /\ act' = [a |-> "disk", u |-> u, d |-> d]
    /\ disk' = [disk EXCEPT ![u] = d]
    /\ out' = <<>>
    /\ UNCHANGED <<docs, lang, fuel, phase, caps, owed, shown>>

(* Life cycle *)
Shutdown ==
    /\ "lifecycle" \in Alphabet
    /\ act' = [a |-> "shutdown"]
    /\ phase' = "down"
    /\ out' = << Null >>
    /\ UNCHANGED <<docs, lang, disk, fuel, caps, owed, shown>>

Exit ==
    /\ "lifecycle" \in Alphabet
    /\ act' = [a |-> "exit"]
    /\ phase' = "ended"
    /\ out' = <<>>
    /\ UNCHANGED <<docs, lang, disk, fuel, caps, owed, shown>>

--------------------------------------------------------------------------
IdNames     == {"rust", "toml"}
ChangeLists == {<<>>} \cup {<<t>> : t \in Texts} \cup {<<s, t>> : s, t \in Texts}
Room(u)     == IsOpen(u) \/ Cardinality({x \in Uris : IsOpen(x)}) < MaxOpen
Malformed   == Queries \cup {"resolve", "execute"}
Unknowns    == {"textDocument/definition", "workspace/symbol", "ink/unknown"}
IgnoredNots == {"textDocument/didSave", "$/cancelRequest", "workspace/didChangeConfiguration", "ink/unknown"}
Stray       == {"num", "str", "migrate", "showdoc"}
ExtractArgs == {"event", "elsewhere", "outside", "inverted", "huge", "noargs"}

Up ==
    \/ \E u \in Uris, id \in IdNames, t \in Texts, v \in Vers : Room(u) /\ Open(u, id, t, v)
    \/ \E u \in Uris, ts \in ChangeLists, v \in Vers : Change(u, ts, v)
    \/ \E u \in Uris : Close(u)
    \/ \E n \in IgnoredNots : Ignored(n)
    \/ \E s \in Stray : StrayAnswer(s)
    \/ \E q \in Queries, u \in Uris, p \in {"good", "bad"} : Query(q, u, p)
    \/ \E m \in Malformed : BadParams(m)
    \/ \E m \in Unknowns : UnknownRequest(m)
    \/ \E g \in {"good", "badname", "noargs"} : Create(g)
    \/ \E u \in Uris, g \in {"good", "noargs"} : Migrate(u, g)
    \/ \E u \in Uris, r \in ExtractArgs : Extract(u, r)
    \/ \E u \in Uris, c \in {"migrate", "extract", "other", "none"}, r \in {"event", "elsewhere", "outside", "inverted", "noargs"} : Resolve(u, c, r)
    \/ UnknownCommand
    \/ \E c \in owed : Answer(c)
    \/ \E u \in Uris, d \in Disks : SetDisk(u, d)
    \/ Shutdown
    \/ Exit

Next == \/ phase = "up" /\ Up
        \/ phase = "down" /\ Exit

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* Properties *)
TypeOK ==
    /\ fuel \in 0..2
    /\ phase \in {"up", "down", "ended"}
    /\ \A u \in Uris : lang[u] \in {"none", "4", "5"}

\* P02: what the client sees is in sync with what it told the server.
InSync == \A u \in Uris :
    IF IsOpen(u) THEN shown[u] = [text |-> docs[u].text, ver |-> docs[u].ver, lang |-> lang[u]]
    ELSE shown[u] = Hidden /\ lang[u] = "none"

IsRequest(a) == a.a \in {"query", "badparams", "unknown", "create", "migrate", "extract", "resolve", "unknowncommand", "shutdown"}

\* P01: every request is answered exactly once, nothing else is answered.
OneResponse == Cardinality({i \in 1..Len(out) : IsResponse(out[i])}) = (IF IsRequest(act) THEN 1 ELSE 0)

\* P02: a message about one document publishes nothing about another one.
Isolated == \A i \in 1..Len(out) : out[i].k \in {"publish", "clear"} => act.a \in {"open", "change", "close"} /\ out[i].u = act.u

\* P03: an answer is a function of the current text and language version.
Current == \A i \in 1..Len(out) :
    out[i].k = "result" /\ act.a = "query" => out[i].t = docs[act.u].text /\ out[i].l = lang[act.u]

\* P05: a freshly opened document, and any update following a migration, uses the declared version.
Detected == \A i \in 1..Len(out) : (out[i].k = "publish" => out[i].l = lang[out[i].u])
Sticky == [][\A u \in Uris : lang'[u] # lang[u] =>
                \/ lang'[u] = "none" \/ lang[u] = "none"
                \/ (fuel > 0 /\ lang'[u] = Declared(u))]_vars
\* P04: workspace edits that create files are only sent to clients that can apply them.
Capable == \A i \in 1..Len(out) : out[i].k = "applyEdit" /\ out[i].c \in {"create", "extract"} => caps.create

--------------------------------------------------------------------------
View == state
St == [docs |-> docs, lang |-> lang, disk |-> disk, fuel |-> fuel, phase |-> phase, caps |-> caps, owed |-> owed]
Emit == PrintT(ToJson([s |-> St, a |-> act', o |-> out', t |-> St']))
=============================================================================
