------------------------------ MODULE Placement ------------------------------
(***************************************************************************)
(* Where ink! annotations may stand (P12). A program is a valid contract   *)
(* (storage, impl with a constructor and a message) in a file, extended    *)
(* with annotated items, each put into a scope. A scope is the sequence of *)
(* ink! entities that enclose it plus the kind of the item it is the body  *)
(* of. Diags gives, for every annotated item, exactly the rules it breaks. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Versions, Annots, ScopeNames, Kinds, MaxItems

\* --- scopes: enclosing ink! entities (outermost first), body of what item, inside an impl block with callables?
S(c, p, i) == [chain |-> c, parent |-> p, impl |-> i]
Scope == [
  file      |-> S(<<>>, "file", FALSE),
  filemod   |-> S(<<>>, "mod", FALSE),
  filefn    |-> S(<<>>, "fn", FALSE),
  fileimpl  |-> S(<<>>, "impl", FALSE),
  contract  |-> S(<<"contract">>, "contract", FALSE),
  cmod      |-> S(<<"contract">>, "mod", FALSE),
  cfn       |-> S(<<"contract">>, "fn", FALSE),
  cimplfn   |-> S(<<"contract">>, "fn", TRUE),
  cimpl     |-> S(<<"contract">>, "impl", TRUE),
  cmodimpl  |-> S(<<"contract">>, "impl", FALSE),
  annimpl   |-> S(<<"contract", "impl">>, "impl", TRUE),
  ctrait    |-> S(<<"contract">>, "trait", FALSE),
  msgbody   |-> S(<<"contract", "message">>, "fn", FALSE),
  ctorbody  |-> S(<<"contract", "constructor">>, "fn", FALSE),
  ctestbody |-> S(<<"contract", "test">>, "fn", FALSE),
  ftestbody |-> S(<<"test">>, "fn", FALSE),
  ce2ebody  |-> S(<<"contract", "e2e">>, "fn", FALSE),
  fe2ebody  |-> S(<<"e2e">>, "fn", FALSE),
  traitdef  |-> S(<<"trait_definition">>, "trait", FALSE),
  ctraitdef |-> S(<<"contract", "trait_definition">>, "trait", FALSE),
  chainext  |-> S(<<"chain_extension">>, "trait", FALSE),
  ffield    |-> S(<<>>, "struct", FALSE),
  cfield    |-> S(<<"contract">>, "struct", FALSE),
  sfield    |-> S(<<"contract", "storage">>, "struct", FALSE),
  evfield   |-> S(<<"contract", "event">>, "struct", FALSE),
  ev2field  |-> S(<<"event2">>, "struct", FALSE),
  cev2field |-> S(<<"contract", "event2">>, "struct", FALSE),
  sifield   |-> S(<<"storage_item">>, "struct", FALSE),
  csifield  |-> S(<<"contract", "storage_item">>, "struct", FALSE) ]

ItemScopes == {"file", "filemod", "filefn", "contract", "cmod", "cfn", "cimplfn", "msgbody", "ctorbody", "ctestbody", "ftestbody", "ce2ebody", "fe2ebody"}
AssocScopes == {"fileimpl", "cimpl", "cmodimpl", "annimpl", "ctrait", "traitdef", "ctraitdef", "chainext"}
FieldScopes == DOMAIN Scope \ (ItemScopes \cup AssocScopes)

ItemKinds == {"struct", "enum", "union", "fn", "trait", "impl", "mod", "const", "static", "type", "use"}
AssocKinds == {"fn", "const", "type"}
FieldKinds == {"field", "tuple-field"}
Fits(s, k) == \/ s \in ItemScopes /\ k \in ItemKinds
              \/ s \in AssocScopes /\ k \in AssocKinds
              \/ s \in FieldScopes /\ k \in FieldKinds

Macros == {"contract", "event2", "trait_definition", "chain_extension", "storage_item", "test", "e2e", "scale_derive"}
\* What may stand directly (without another ink! entity between) inside an entity that admits anything at all.
Admits(e, v) ==
  CASE e = "file" -> IF v = 4 THEN Macros \ {"event2", "scale_derive"} ELSE Macros
    [] e = "contract" -> {"storage", "event", "impl", "constructor", "message", "chain_extension", "storage_item", "test", "trait_definition", "e2e"}
                         \cup (IF v = 5 THEN {"event2", "scale_derive"} ELSE {})
    [] e = "impl" -> {"constructor", "message"} \cup (IF v = 5 THEN {"scale_derive"} ELSE {})
    [] e = "trait_definition" -> {"message"} \cup (IF v = 5 THEN {"scale_derive"} ELSE {})
    [] e = "chain_extension" -> IF v = 4 THEN {"extension"} ELSE {"function", "extension", "scale_derive"}
\* Entities in which nothing (with the exceptions given) may be annotated at any depth.
Closed == {"storage", "event", "event2", "storage_item", "message", "constructor", "test", "e2e"}
Exempt(e, v) == CASE e \in {"event", "event2"} -> {"topic"}
                  [] e \in {"message", "constructor", "test", "e2e"} /\ v = 5 -> {"scale_derive"}
                  [] OTHER -> {}

VARIABLES ver, items
Callable(i) == i.annot \in {"constructor", "message"}
\* Is the scope (inside) an impl block that counts as an ink! impl?
InInkImpl(s) == Scope[s].impl \/ (s = "cmodimpl" /\ \E n \in 1..Len(items) : items[n].scope = s /\ Callable(items[n]) /\ items[n].kind = "fn")

Closest(s) == IF Scope[s].chain = <<>> THEN "file" ELSE Scope[s].chain[Len(Scope[s].chain)]

\* --- the three families of rules
Blocked(i, v) == {"in-" \o e : e \in {x \in ToSet(Scope[i.scope].chain) : x \in Closed /\ i.annot \notin Exempt(x, v)}}
Misplaced(i, v) ==
  LET c == Closest(i.scope) IN
  IF \/ c \notin Closed /\ i.annot \notin Admits(c, v)
     \/ InInkImpl(i.scope) /\ i.annot \notin Admits("impl", v)
  THEN {"scope"} ELSE {}

\* Is the annotation seen as an entity of its own there?
Live(i) == LET c == Closest(i.scope) IN
  CASE i.annot \in {"storage", "event"} -> c = "contract"
    [] i.annot = "impl" -> c = "contract" /\ i.kind \notin FieldKinds
    [] i.annot \in {"constructor", "message"} -> c \in {"contract", "impl"} \/ (i.annot = "message" /\ c = "trait_definition")
    [] i.annot \in {"event2", "trait_definition", "chain_extension", "storage_item", "test", "e2e"} -> c \in {"file", "contract"}
    [] i.annot = "contract" -> c = "file"
    [] i.annot = "topic" -> c \in {"event", "event2"}
    [] OTHER -> FALSE

AtRoot(s) == s = "contract"
InImpl(s) == s \in {"cimpl", "annimpl", "cmodimpl"}

WrongKind(a, k) ==
  CASE a \in {"storage", "event", "event2"} -> k # "struct"
    [] a \in {"constructor", "message", "test", "e2e"} -> k # "fn"
    [] a \in {"trait_definition", "chain_extension"} -> k # "trait"
    [] a = "storage_item" -> k \notin {"struct", "enum", "union"}
    [] a = "impl" -> k # "impl"
    [] a = "contract" -> k # "mod"
    [] a = "topic" -> k # "field"
    [] OTHER -> FALSE

Entity(i, v) == IF ~Live(i) THEN {} ELSE
  (IF WrongKind(i.annot, i.kind) THEN {"kind-" \o i.annot} ELSE {})
  \cup (IF /\ \/ i.annot \in {"storage", "event", "impl"}
              \/ i.annot = "event2" /\ v = 4
           /\ ~AtRoot(i.scope)
        THEN {"root-" \o i.annot} ELSE {})
  \cup (IF i.annot \in {"constructor", "message"} /\ Closest(i.scope) # "trait_definition"
        THEN IF i.kind = "fn" /\ InImpl(i.scope)
             THEN IF i.scope = "cmodimpl" THEN {"root-impl-around"} ELSE {}
             ELSE {"not-in-impl-" \o i.annot} \cup (IF InInkImpl(i.scope) THEN {"impl-root-" \o i.annot} ELSE {})
        ELSE {})
  \cup (IF i.annot = "trait_definition" /\ i.kind # "trait" THEN {"empty-trait"} ELSE {})
  \cup (IF i.annot = "contract" /\ i.kind # "mod" THEN {"empty-contract"} ELSE {})
  \cup (IF i.annot = "storage" THEN {"extra-storage"} ELSE {})
  \cup (IF i.annot = "contract" /\ i.kind = "mod" THEN {"extra-contract"} ELSE {})

Diags(i, v) == Blocked(i, v) \cup Misplaced(i, v) \cup Entity(i, v)

-----------------------------------------------------------------------------
vars == <<ver, items>>
Init == ver \in Versions /\ items = <<>>
Put == /\ Len(items) < MaxItems
       /\ \E a \in Annots, s \in ScopeNames, k \in Kinds :
            /\ Fits(s, k)
            /\ ver = 4 => "event2" \notin ToSet(Scope[s].chain)  \* not a scope of ink! 4
            /\ items' = Append(items, [annot |-> a, scope |-> s, kind |-> k])
       /\ UNCHANGED ver
Next == Put
Spec == Init /\ [][Next]_vars

Here == {items[n] : n \in 1..Len(items)}
\* Declaratively: what ink! allows, written independently of the rules above.
Allowed(i, v) ==
  CASE i.annot = "storage" -> FALSE          \* the contract has one already
    [] i.annot = "contract" -> FALSE         \* the file has one already
    [] i.annot = "event" -> i.kind = "struct" /\ i.scope = "contract"
    [] i.annot = "event2" -> v = 5 /\ i.kind = "struct" /\ i.scope \in {"file", "filemod", "filefn", "contract", "cmod", "cfn"}
    [] i.annot = "topic" -> i.kind = "field" /\ i.scope \in {"evfield", "ev2field", "cev2field"}
    [] i.annot = "storage_item" -> i.kind \in {"struct", "enum", "union"} /\ i.scope \in {"file", "filemod", "filefn", "contract", "cmod", "cfn"}
    [] i.annot \in {"test", "e2e"} -> i.kind = "fn" /\ Closest(i.scope) \in {"file", "contract"} /\ ~InInkImpl(i.scope)
    [] i.annot = "message" -> i.kind = "fn" /\ i.scope \in {"cimpl", "annimpl"}
    [] i.annot = "constructor" -> i.kind = "fn" /\ i.scope \in {"cimpl", "annimpl"}
    [] i.annot = "impl" -> i.kind = "impl" /\ i.scope = "contract"
    [] OTHER -> Diags(i, v) = {}
\* trait definitions and chain extensions have their own rules for what they contain (P10, P11).
Own(i) == Closest(i.scope) \in {"trait_definition", "chain_extension"} \/ (i.annot = "impl" /\ i.kind \in FieldKinds)
Exact == \A i \in Here : ~Own(i) => (Diags(i, ver) = {} <=> Allowed(i, ver))

Emit == items # <<>> /\ Len(items) = MaxItems => PrintT(ToJson([v |-> ver, items |-> items, live |-> [n \in 1..Len(items) |-> Live(items[n])], diags |-> [n \in 1..Len(items) |-> Diags(items[n], ver)]]))
=============================================================================
