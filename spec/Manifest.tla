------------------------------ MODULE Manifest ------------------------------
(***************************************************************************)
(* Cargo manifests: the ink! version that they declare (P05), what a       *)
(* migration makes of them (P15) and what an extracted event adds (P16).   *)
(*                                                                         *)
(* A dependency is a form (how it is written) with keys.  The form is      *)
(* "string" (just a requirement), "inline", "table" ([dependencies.x]) or  *)
(* "dotted" (x.key = ...), "odd" is neither a string nor a table, and      *)
(* "none" means there is no such dependency.  A requirement is a sequence  *)
(* of comparators <<operator, major>>, where the major version "*" stands  *)
(* for the wildcard.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mans,      \* manifests which a directory can have
          MaxDepth,  \* how many directories there are
          Holes,     \* how many empty directories there are in between
          InkDeps, CodecDeps, E2eDeps, Lists, OtherDeps, Shells, MaxEdits

VARIABLES chain,     \* the manifests from the directory of the document upwards
          doc,       \* one manifest, in detail
          edits
vars == <<chain, doc, edits>>

(* ------------------------------------------------------------- version -- *)
IsFive(c) == c[2] = "5" /\ c[1] # "<"
Five(req) == req[1][2] = "*" \/ \E i \in 1..Len(req) : IsFive(req[i])

Keys(d) == {kv[1] : kv \in d.kv}
Has(d, k) == k \in Keys(d)
Declared(d) == d.form \notin {"none", "odd"} /\ (d.req # <<>> \/ Has(d, "path") \/ Has(d, "git"))
Inherits(d) == d.form \notin {"none", "odd", "string"} /\ Has(d, "workspace")
Guess(d) == IF d.req # <<>> THEN (IF Five(d.req) THEN 5 ELSE 4)
            ELSE IF Has(d, "path") \/ Has(d, "git") THEN 5 ELSE 4

Absent(m) == m.k = "absent"
NearestOf(ms) == LET s == {i \in 1..Len(ms) : ~Absent(ms[i])}
                 IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
\* The manifest of the workspace is the nearest one, itself included, whose workspace has the dependency.
Roots(ms, from) == {i \in from..Len(ms) : ms[i].k = "ok" /\ Declared(ms[i].ws)}
Version(ms) ==
  LET n == NearestOf(ms)
  IN IF n = 0 THEN 4
     ELSE IF ms[n].k = "broken" THEN 4
     ELSE IF Inherits(ms[n].ink)
          THEN LET r == Roots(ms, n) IN IF r = {} THEN 4 ELSE Guess(ms[CHOOSE i \in r : \A j \in r : i <= j].ws)
     ELSE IF Declared(ms[n].ink) THEN Guess(ms[n].ink) ELSE 4

(* ----------------------------------------------------------- migration -- *)
NewReq == <<<<"=5.0.0", "5">>>>  \* rendered as the plain "5.0.0"
Without(d, ks) == {kv \in d.kv : kv[1] \notin ks}
None == [form |-> "none", req |-> <<>>, kv |-> {}]

CanEdit(d) == d.shell = "table"
CanMigrate(d) == CanEdit(d) /\ d.ink.form # "none"
MigInk(i) == LET kv == Without(i, {"workspace"})
             IN [form |-> "inline", req |-> NewReq,
                 kv |-> kv \cup (IF "default-features" \in {x[1] : x \in kv} THEN {} ELSE {<<"default-features", "false">>})]
MigE2e(e) == IF e.form = "none" THEN e
             ELSE LET kv == Without(e, {"workspace"})
                  IN IF kv = {} THEN [form |-> "string", req |-> NewReq, kv |-> {}] ELSE [e EXCEPT !.req = NewReq, !.kv = kv]
Kept(f) == f \notin {"scale/std", "scale-info/std"}
Migrated(d) == [d EXCEPT !.ink = MigInk(@), !.scale = None, !.info = None, !.e2e = MigE2e(@),
                         !.std = SelectSeq(@, Kept), !.more = SelectSeq(@, Kept)]

(* ----------------------------------------------------------- extraction -- *)
EventDep == "my-event"
CanAdd(d) == CanEdit(d) /\ EventDep \notin d.other
Added(d) == [d EXCEPT !.other = @ \cup {EventDep}]

(* ------------------------------------------------------------ behaviour -- *)
Nothing == [k |-> "absent"]
InitChain == chain \in {<<m>> : m \in Mans} /\ doc = Nothing /\ edits = 0
\* A directory further up, after some directories without a manifest.
AddDir(m, h) == Len(chain) + h < MaxDepth /\ chain' = chain \o [i \in 1..h |-> Nothing] \o <<m>> /\ edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED doc
NextChain == \E m \in Mans, h \in Holes : AddDir(m, h)
SpecChain == InitChain /\ [][NextChain]_vars

Ink4 == [form |-> "inline", req |-> <<<<"", "4">>>>, kv |-> {<<"default-features", "false">>}]
Base == [shell |-> "table", ink |-> Ink4, scale |-> None, info |-> None, e2e |-> None, std |-> <<"ink/std">>, more |-> <<>>, other |-> {}]
InitDoc == doc = Base /\ chain = <<>> /\ edits = 0
Edit(f, S) == \E v \in S : v # doc[f] /\ doc' = [doc EXCEPT ![f] = v]
NextDoc == /\ edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED chain
           /\ \/ Edit("ink", InkDeps) \/ Edit("scale", CodecDeps) \/ Edit("info", CodecDeps) \/ Edit("e2e", E2eDeps)
              \/ Edit("std", Lists) \/ Edit("more", Lists) \/ Edit("other", SUBSET OtherDeps) \/ Edit("shell", Shells)
SpecDoc == InitDoc /\ [][NextDoc]_vars

-----------------------------------------------------------------------------
\* The closest manifest decides alone unless it leaves the choice to its workspace.
Closest == chain # <<>> =>
  LET n == NearestOf(chain)
  IN n # 0 => IF chain[n].k = "ok" /\ Inherits(chain[n].ink) THEN \A ms \in {SubSeq(chain, n, Len(chain))} : Version(ms) = Version(chain)
              ELSE Version(<<chain[n]>>) = Version(chain)
\* A migrated project is an ink! 5 one, whatever is around it.
MigratedIsFive == doc.k # "absent" /\ CanMigrate(doc) => Version(<<[k |-> "ok", ink |-> Migrated(doc).ink, ws |-> None]>>) = 5
Same == CanMigrate(doc) => Migrated(Migrated(doc)) = Migrated(doc)
KeepsOther == CanMigrate(doc) =>
  /\ Migrated(doc).other = doc.other
  /\ \A kv \in doc.ink.kv : kv[1] # "workspace" => kv \in Migrated(doc).ink.kv
  /\ \A i \in 1..Len(doc.std) : Kept(doc.std[i]) => \E j \in 1..Len(Migrated(doc).std) : Migrated(doc).std[j] = doc.std[i]

EmitChain == PrintT(ToJson([chain |-> chain, v |-> Version(chain)]))
EmitDoc == PrintT(ToJson([doc |-> doc, mig |-> IF CanMigrate(doc) THEN Migrated(doc) ELSE Nothing,
                          add |-> IF CanAdd(doc) THEN Added(doc) ELSE Nothing]))
=============================================================================
