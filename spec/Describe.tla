------------------------------ MODULE Describe -------------------------------
(***************************************************************************)
(* What is told about the ink! attributes of an item: hover texts, inlay   *)
(* hints and signature help.  A state is an item with its attributes in a  *)
(* scope (see Suggest.tla); for every place of the cursor in them the      *)
(* specification says what is described.                                   *)
(***************************************************************************)
EXTENDS Suggest

\* Beginnings of argument names.
Typed == [w \in {"pa", "se", "e", "na", "m", "env"} |-> CASE w = "pa" -> {"payable"} [] w = "se" -> {"selector"} [] w = "na" -> {"namespace"} [] w = "m" -> {"message"} [] w = "env" -> {"environment"}
                                              [] OTHER -> {"event", "extension", "env", "environment"}]

(* ----------------------------------------------------------------- hover *)
New5 == {"backend", "node", "url", "runtime_only", "sandbox", "Decode", "Encode", "function", "signature_topic", "TypeInfo"}
New5Macros == {"event", "scale_derive"}
Changed5 == {"anonymous", "extension", "keep_attr", "selector", "topic"}
Nothing == [c |-> "none", k |-> "", e |-> ""]
\* The text about argument k of an attribute of kind w: which thing it describes, and in which edition.
ArgDoc(k, w) ==
  CASE k \notin KnownArgs \/ (v = 4 /\ k \in New5) -> Nothing
    [] v = 5 /\ k = "additional_contracts" -> [c |-> "arg", k |-> k, e |-> "deprecated"]
    [] v = 5 /\ k = "keep_attr" /\ w = M("e2e_test") -> [c |-> "arg", k |-> k, e |-> "deprecated"]
    [] k \in {"env", "environment"} -> [c |-> "arg", k |-> "env", e |-> ""]
    [] k \in {"backend", "node", "url", "runtime_only", "sandbox"} -> [c |-> "arg", k |-> "backend", e |-> ""]
    [] OTHER -> [c |-> "arg", k |-> k, e |-> IF v = 5 /\ k \in Changed5 THEN "5" ELSE ""]
MacroDoc(m) ==
  CASE m \notin KnownMacros \/ (v = 4 /\ m \in New5Macros) -> Nothing
    [] OTHER -> [c |-> "macro", k |-> m, e |-> IF v = 5 /\ m = "chain_extension" THEN "5" ELSE ""]
\* Anywhere in attribute i but on its arguments.
AttrDoc(i) == CASE K(i).c = "macro" -> MacroDoc(K(i).k) [] K(i).c = "arg" -> ArgDoc(K(i).k, A(K(i).k)) [] OTHER -> Nothing
\* The argument whose name stands for attribute i (0: the macro does).
AttrName(i) == IF K(i).c # "arg" THEN 0 ELSE CHOOSE j \in 1..Len(as[i].args) : as[i].args[j].k = K(i).k /\ \A l \in 1..(j - 1) : as[i].args[l].k # K(i).k

(* ----------------------------------------------------------------- hints *)
TypeName(k, con) ==
  LET t == Takes(k, con)
  IN CASE t \in {"string", "ident", "hex32", "url"} -> "&str"
       [] t = "path" -> IF k = "sandbox" THEN "impl drink::Sandbox" ELSE "impl Environment"
       [] t = "u32|_" -> "u32 | _"
       [] t = "u32|_|@" -> "u32 | _ | @"
       [] t = "node|runtime_only" -> "node | runtime_only"
       [] t \in {"url?", "sandbox?", "none"} -> ""
       [] OTHER -> t
TypeNote(k) ==
  CASE k \in {"env", "environment"} -> "A `ink::env::Environment` implementation."
    [] k = "sandbox" -> "A `drink::Sandbox` implementation."
    [] k = "keep_attr" -> "A comma separated list."
    [] k = "additional_contracts" -> "A space separated list."
    [] k = "signature_topic" -> "A 32 byte hex string."
    [] k = "namespace" -> "A valid Rust identifier."
    [] k = "url" -> "A URL."
    [] k = "backend" -> "node | runtime_only"
    [] OTHER -> ""
\* Names of the items nested in a value, outermost first.
Inner(f) == CASE f = "(node)" -> <<"node">> [] f = "(runtime_only)" -> <<"runtime_only">> [] f = "(node(url))" -> <<"node", "url">>
              [] f = "(runtime_only(sandbox))" -> <<"runtime_only", "sandbox">> [] OTHER -> <<>>
Hint(i, j, d, k) == IF k \in KnownArgs /\ TypeName(k, Constructor) # "" THEN {[i |-> i, j |-> j, d |-> d, t |-> TypeName(k, Constructor), n |-> TypeNote(k)]} ELSE {}
Hints == UNION {Hint(p[1], p[2], 0, ArgAt(p)) \cup UNION {Hint(p[1], p[2], d, Inner(as[p[1]].args[p[2]].f)[d]) : d \in 1..Len(Inner(as[p[1]].args[p[2]].f))} : p \in Pos}

(* ------------------------------------------------------------ signatures *)
Anchor(k) == {k} \cup Beside(k)
\* Arguments that complete an entity are shown in the signature of that entity.
Signed(k, S) ==
  LET es == Anchor(k) \cap Entity \cap S
  IN IF k \in Entity THEN {Anchor(k)}
     ELSE (IF k = "namespace" THEN {{k}} ELSE {}) \cup (IF es = {} THEN {Anchor(k)} ELSE {Anchor(e) : e \in es})
\* Signatures in attribute i when the unknown word w (or nothing, "") is under the cursor.
Possible0(w) == {k \in KindArgs \cap ScopeArgs : w = "" \/ (w \in DOMAIN Typed /\ k \in Typed[w])}
Signatures(i, w) ==
  CASE K(i).c = "macro" -> {MacroArgs(K(i).k)} \ {{}}
    [] as[i].m # "" -> {}
    [] K(i).c = "arg" /\ K(i).k \in Entity -> {Anchor(K(i).k)}
    [] item # "field" /\ Known # {} /\ K(Primary).c = "arg" /\ K(Primary).k \in Entity -> {Anchor(K(Primary).k)}
    [] K(i).c = "arg" -> Signed(K(i).k, KnownArgs)
    [] OTHER -> UNION {Signed(k, Possible0("")) : k \in Possible0(w)}
Shown(S) == {[k |-> k, t |-> TypeName(k, "constructor" \in S)] : k \in S}
\* The parameter to highlight when argument j is under the cursor (0: none).
Focus(i, j, S) == IF j = 0 THEN {} ELSE LET k == as[i].args[j].k IN IF k \in S THEN {k} ELSE IF k \in DOMAIN Typed THEN S \cap Typed[k] ELSE {}
Word(i, j) == IF j > 0 /\ as[i].args[j].k \notin KnownArgs THEN as[i].args[j].k ELSE ""
Help(i, j) == {[ps |-> Shown(S), act |-> Focus(i, j, S)] : S \in Signatures(i, Word(i, j))}

(* ------------------------------------------------------------- relations *)
\* Everything that is diagnosed to need a value gets a hint, and nothing else.
HintsMatch == \A p \in Pos : ArgAt(p) \in KnownArgs =>
                 ((\E h \in Hints : h.i = p[1] /\ h.j = p[2] /\ h.d = 0) <=> ~Fits(Takes(ArgAt(p), Constructor), "none"))
\* The signature of an acceptable attribute lists all its arguments.
Covers == (Acceptable /\ N = 1 /\ as[1].args # <<>> /\ ~(K(1).c = "arg" /\ K(1).k \in Complement)) =>
             \A j \in 1..Len(as[1].args) : as[1].args[j].k \notin Lone => \A S \in Signatures(1, "") : Names(as[1]) \subseteq S
\* What is offered as an argument is shown as a parameter.
ShowsOffers == (N > 0 /\ ~(as[N].m # "" /\ K(N).c = "unknown") /\ K(N).k # "namespace" /\ focus = "arg" /\ Ready /\ item # "const") => \A k \in Args0 : \E S \in Signatures(N, "") : k \in S

DEmit == PrintT(ToJson([v |-> v, item |-> item, scope |-> scope, as |-> as,
    docs |-> [i \in 1..N |-> [at |-> AttrDoc(i), n |-> AttrName(i), args |-> [j \in 1..Len(as[i].args) |-> ArgDoc(as[i].args[j].k, K(i))]]],
    hints |-> Hints, help |-> [i \in 1..N |-> [j \in 1..(Len(as[i].args) + 1) |-> Help(i, j - 1)]]]))
=============================================================================
