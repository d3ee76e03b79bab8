-------------------------------- MODULE Attrs --------------------------------
(***************************************************************************)
(* ink! attributes of one item: which macros and arguments exist, which    *)
(* value each argument takes, and which may stand together in which order. *)
(*                                                                         *)
(* A state is the sequence of ink! attributes written on one item so far;  *)
(* steps append an attribute or an argument to the last attribute.  Diags  *)
(* is the exact set of reports; Acceptable is the independent declarative  *)
(* rule ("one entity, its own arguments, the entity first"), and the       *)
(* invariant Agree says that an item is reported iff it is not acceptable. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions,   \* ink! versions
          Macros,     \* macros that may be written; "" stands for #[ink(..)]
          Args,       \* arguments that may be written
          Forms,      \* value forms that may be written
          MaxAttrs, MaxArgs,
          InChain,    \* is the item inside a chain extension?
          OnlyGood    \* write only correct values

VARIABLES v, as, chain
vars == <<v, as, chain>>

KnownMacros == {"chain_extension", "contract", "event", "storage_item", "test", "trait_definition", "e2e_test", "scale_derive"}
Entity == {"constructor", "event", "extension", "function", "impl", "message", "storage", "topic"}
Complement == {"additional_contracts", "anonymous", "backend", "Decode", "default", "derive", "Encode", "env", "environment",
               "handle_status", "keep_attr", "namespace", "node", "payable", "runtime_only", "sandbox", "selector",
               "signature_topic", "TypeInfo", "url"}
KnownArgs == Entity \cup Complement

(* ---------------------------------------------------------------- values *)
\* What an argument takes.  `con`: the item is a constructor.
Takes(k, con) ==
  CASE k \in {"additional_contracts", "keep_attr"} -> "string"
    [] k = "backend" -> "node|runtime_only"
    [] k \in {"env", "environment", "sandbox"} -> "path"
    [] k = "extension" -> IF v = 5 THEN "u16" ELSE "u32"
    [] k = "function" -> "u16"
    [] k \in {"handle_status", "derive"} -> "bool"
    [] k = "namespace" -> "ident"
    [] k = "node" -> "url?"
    [] k = "runtime_only" -> "sandbox?"
    [] k = "selector" -> IF v = 5 /\ ~con THEN "u32|_|@" ELSE "u32|_"
    [] k = "signature_topic" -> "hex32"
    [] k = "url" -> "url"
    [] OTHER -> "none"

Fits(t, f) ==
  CASE t = "none" -> f = "none"
    [] t = "u16" -> f \in {"u16", "x16"}
    [] t = "u32" -> f \in {"u16", "x16", "u32", "x32"}
    [] t = "u32|_" -> f \in {"u16", "x16", "u32", "x32", "_"}
    [] t = "u32|_|@" -> f \in {"u16", "x16", "u32", "x32", "_", "@"}
    [] t = "bool" -> f \in {"true", "false"}
    [] t = "path" -> f \in {"path", "name"}
    [] t = "string" -> f \in {"s-ident", "s-words", "s-empty", "s-hex32", "s-hex31", "s-hex33", "s-url", "s-digit", "s-keyword"}
    [] t = "ident" -> f = "s-ident"
    [] t = "hex32" -> f = "s-hex32"
    [] t = "url" -> f = "s-url"
    [] t = "node|runtime_only" -> f \in {"(node)", "(runtime_only)", "(node(url))", "(runtime_only(sandbox))"}
    [] t = "url?" -> f \in {"none", "(url)"}
    [] t = "sandbox?" -> f \in {"none", "(sandbox)"}

Nested == {"(node)", "(runtime_only)", "(node(url))", "(runtime_only(sandbox))", "(url)", "(sandbox)", "(foo)", "(node(foo))", "(node(bad-url))"}
HasValue(f) == f \notin ({"none", "eq", "bad"} \cup Nested)

(* ---------------------------------------------------- kinds and grouping *)
Elems(s) == {s[i] : i \in 1..Len(s)}
Names(a) == {x.k : x \in Elems(a.args)}
Rank(k) == IF k \in Entity THEN 0 ELSE IF k \in Complement THEN 1 ELSE 2
\* The argument an attribute stands for: the first of the best rank.
Best(a) == LET r(i) == Rank(a.args[i].k)
               i == CHOOSE i \in 1..Len(a.args) : \A j \in 1..Len(a.args) : r(i) < r(j) \/ (r(i) = r(j) /\ i <= j)
           IN a.args[i].k
Kind(a) == IF a.m # "" THEN [c |-> IF a.m \in KnownMacros THEN "macro" ELSE "unknown", k |-> a.m]
           ELSE IF a.args = <<>> \/ (\A x \in Elems(a.args) : x.k \notin KnownArgs) THEN [c |-> "unknown", k |-> ""]
           ELSE [c |-> "arg", k |-> Best(a)]

MacroArgs(m) ==
  CASE m = "contract" -> {"env", "keep_attr"}
    [] m = "chain_extension" -> IF v = 5 THEN {"extension"} ELSE {}
    [] m = "event" -> IF v = 5 THEN {"anonymous", "signature_topic"} ELSE {}
    [] m = "storage_item" -> {"derive"}
    [] m = "trait_definition" -> {"keep_attr", "namespace"}
    [] m = "e2e_test" -> IF v = 5 THEN {"backend", "environment"} ELSE {"additional_contracts", "environment", "keep_attr"}
    [] m = "scale_derive" -> IF v = 5 THEN {"Encode", "Decode", "TypeInfo"} ELSE {}
    [] OTHER -> {}

\* Arguments that may stand beside the argument k (whatever entity they are for).
Beside(k) ==
  CASE k = "event" -> IF v = 5 THEN {"anonymous", "signature_topic"} ELSE {"anonymous"}
    [] k = "anonymous" -> {"event"}
    [] k = "signature_topic" -> IF v = 5 THEN {"event"} ELSE {}
    [] k = "impl" -> {"namespace"}
    [] k \in {"constructor", "message"} -> {"default", "payable", "selector"}
    [] k \in {"default", "payable", "selector"} -> {"constructor", "message", "default", "payable", "selector"} \ {k}
    [] k = "env" -> {"keep_attr"}
    [] k = "keep_attr" -> {"env", "namespace"}
    [] k = "namespace" -> {"keep_attr", "impl"}
    [] k = "extension" -> IF v = 5 THEN {} ELSE {"handle_status"}
    [] k = "function" -> IF v = 5 THEN {"handle_status"} ELSE {}
    [] k = "handle_status" -> IF v = 5 THEN {"function"} ELSE {"extension"}
    [] OTHER -> {}

\* What is missing when the argument k is the best an item has.
Needs(k) ==
  CASE k = "additional_contracts" -> IF v = 5 THEN {} ELSE {"e2e_test"}
    [] k = "environment" -> {"e2e_test"}
    [] k = "backend" -> IF v = 5 THEN {"e2e_test"} ELSE {}
    [] k = "anonymous" -> {"event"}
    [] k = "signature_topic" -> IF v = 5 THEN {"event"} ELSE {}
    [] k \in {"Decode", "Encode", "TypeInfo"} -> IF v = 5 THEN {"scale_derive"} ELSE {}
    [] k = "keep_attr" -> {"contract", "trait_definition", "e2e_test"}
    [] k = "handle_status" -> IF v = 5 THEN {"function"} ELSE {"extension"}
    [] k \in {"payable", "default", "selector"} -> {"constructor", "message"}
    [] OTHER -> {}

(* --------------------------------------------------------------- actions *)
Value(k) == IF OnlyGood THEN {CHOOSE f \in Forms : Fits(Takes(k, FALSE), f)} ELSE Forms
Init == v \in Versions /\ as = <<>> /\ chain \in InChain
AddAttr == /\ Len(as) < MaxAttrs
           /\ \E m \in Macros : as' = Append(as, [m |-> m, args |-> <<>>])
           /\ UNCHANGED <<v, chain>>
AddArg == /\ Len(as) > 0 /\ Len(as[Len(as)].args) < MaxArgs
          /\ \E k \in Args : \E f \in IF k \in KnownArgs THEN Value(k) ELSE {"none", "u16"} :
                as' = [as EXCEPT ![Len(as)].args = Append(@, [k |-> k, f |-> f])]
          /\ UNCHANGED <<v, chain>>
Next == AddAttr \/ AddArg
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------- diagnostics *)
N == Len(as)
K(i) == Kind(as[i])
Constructor == \E i \in 1..N : K(i) = [c |-> "arg", k |-> "constructor"]
KRank(i) == CASE K(i).c = "macro" -> 0 [] K(i).c = "arg" -> 1 + Rank(K(i).k) [] OTHER -> 9
Known == {i \in 1..N : KRank(i) < 9}
\* The attribute which says what the item is.
Primary == CHOOSE i \in Known : \A j \in Known : KRank(i) < KRank(j) \/ (KRank(i) = KRank(j) /\ i <= j)

D(m, i, j, x) == [m |-> m, i |-> i, j |-> j, x |-> x, p |-> 0]
C(m, i, j, p) == [m |-> m, i |-> i, j |-> j, x |-> "", p |-> p]   \* a conflict with attribute p

\* A value of the wrong kind; nested items are checked in turn.
ArgDiags(i, j) ==
  LET x == as[i].args[j]
      t == Takes(x.k, Constructor)
  IN IF x.k \notin KnownArgs THEN {D("unknown-arg", i, j, "")}
     ELSE IF Fits(t, x.f) THEN {}
     ELSE CASE t \in {"node|runtime_only", "url?", "sandbox?"} ->
                 (CASE HasValue(x.f) -> {D("nest", i, j, t)}
                    [] x.f \in {"none", "eq", "bad"} -> IF t = "node|runtime_only" THEN {D("nest-required", i, j, t)} ELSE {}
                    [] t = "node|runtime_only" /\ x.f = "(node(foo))" -> {D("option", i, j, "url")}
                    [] t = "node|runtime_only" /\ x.f = "(node(bad-url))" -> {D("nested-value", i, j, "url")}
                    [] OTHER -> {D("option", i, j, t)})
            [] OTHER -> {D("value", i, j, t)}

Values == UNION {UNION {ArgDiags(i, j) : j \in 1..Len(as[i].args)} : i \in 1..N}

Unknowns == {D("unknown", i, 0, "") : i \in {i \in 1..N : K(i).c = "unknown"}}

Pos == UNION {{i} \X (1..Len(as[i].args)) : i \in 1..N}
ArgAt(p) == as[p[1]].args[p[2]].k
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Duplicates ==
  {D("dup-macro", i, 0, "") : i \in {i \in 1..N : K(i).c = "macro" /\ \E j \in 1..(i - 1) : K(j) = K(i)}}
  \cup {D("dup-arg", p[1], p[2], "") : p \in {p \in Pos : ArgAt(p) \in KnownArgs /\ \E q \in Pos : Before(q, p) /\ ArgAt(q) = ArgAt(p)}}

FirstOf(k) == CHOOSE p \in Pos : ArgAt(p) = k /\ \A q \in Pos : ArgAt(q) = k => ~Before(q, p)
HasArg(k) == \E p \in Pos : ArgAt(p) = k

\* ink! 5: the two ways of identifying an event exclude each other.
Topics ==
  IF v = 5 /\ Known # {} /\ K(Primary).k \in {"event", "anonymous", "signature_topic"} /\ HasArg("anonymous") /\ HasArg("signature_topic")
  THEN LET p == FirstOf("anonymous") q == FirstOf("signature_topic")
       IN IF Before(p, q) THEN {D("conflict-args", q[1], q[2], "anonymous")} ELSE {D("conflict-args", p[1], p[2], "signature_topic")}
  ELSE {}

\* ink! 5: a chain extension needs an id, and its functions use another argument than before.
ChainId == IF v = 5 /\ Known # {} /\ K(Primary) = [c |-> "macro", k |-> "chain_extension"] /\ ~HasArg("extension")
           THEN {D("needs-extension", Primary, 0, "")} ELSE {}
Deprecated(k) == LET p == FirstOf(k) IN {D("deprecated", p[1], p[2], k)}
OldId == v = 5 /\ chain /\ K(Primary) = [c |-> "arg", k |-> "extension"]
OldContracts == v = 5 /\ HasArg("additional_contracts") /\ K(Primary) \in {[c |-> "macro", k |-> "e2e_test"], [c |-> "arg", k |-> "additional_contracts"]}
OldKeep == v = 5 /\ HasArg("keep_attr") /\ K(Primary) = [c |-> "macro", k |-> "e2e_test"]
Retired(k) == v = 5 /\ K(Primary) = [c |-> "macro", k |-> "e2e_test"] /\ k \in {"additional_contracts", "keep_attr"}

Entities ==
  LET p == Primary
      kp == K(p)
      first == p = 1
      needs == IF kp.c = "arg" THEN Needs(kp.k) ELSE {}
      own == IF kp.c = "macro" THEN MacroArgs(kp.k) ELSE Beside(kp.k)
      ns == kp = [c |-> "arg", k |-> "namespace"]
      pair(i) == v = 5 /\ kp.c = "macro" /\ {kp.k, K(i).k} \subseteq {"scale_derive", "storage_item"} /\ K(i).c = "macro"
      sibling(i) == IF kp.c = "macro" THEN pair(i) ELSE K(i).c = "arg" /\ K(i).k \in own
      tolerated(i) == i = p \/ (i = 1 /\ ~first) \/ sibling(i)
      allowed(i) == IF i # p /\ pair(i) THEN MacroArgs(K(i).k) ELSE own
  IN IF OldId THEN Deprecated("extension")
     ELSE (IF OldContracts THEN Deprecated("additional_contracts") ELSE {})
       \cup (IF OldContracts /\ kp.c = "arg" THEN {} ELSE
          (IF OldKeep THEN Deprecated("keep_attr") ELSE {})
          \cup (IF ~first /\ needs = {} /\ ~ns THEN {D("not-first", p, 0, "")} ELSE {})
          \cup (IF kp.c = "arg" /\ needs = {} /\ as[p].args[1].k # kp.k
                THEN {D("arg-not-first", p, CHOOSE j \in 1..Len(as[p].args) : as[p].args[j].k = kp.k /\ \A l \in 1..(j - 1) : as[p].args[l].k # kp.k, kp.k)}
                ELSE {})
          \cup (IF needs # {} THEN {D("needs", p, 0, kp.k)} ELSE {})
          \cup {C(IF first THEN "conflict-first" ELSE "conflict-primary", i, 0, p) : i \in {i \in 1..N : ~tolerated(i)}}
          \cup {C(IF q[1] = p THEN "conflict-own" ELSE "conflict-arg", q[1], q[2], p) :
                  q \in {q \in Pos : /\ tolerated(q[1])
                                     /\ K(q[1]) # [c |-> "arg", k |-> ArgAt(q)]
                                     /\ ~(as[q[1]].m = "" /\ K(q[1]).c = "unknown" /\ ArgAt(q) \notin KnownArgs)
                                     /\ ArgAt(q) \notin allowed(q[1])
                                     /\ ~Retired(ArgAt(q))}})

Diags == Unknowns \cup Values \cup Duplicates \cup
         (IF Known = {} THEN {} ELSE Topics \cup ChainId \cup Entities)

(* ------------------------------------------------------ declarative rule *)
\* Every entity an item can be, as a set of (required, optional) arguments of an #[ink(..)] group.
ArgGroups ==
  { <<"event", IF v = 5 THEN {"anonymous", "signature_topic"} ELSE {"anonymous"}>>, <<"storage", {}>>, <<"topic", {}>>,
    <<"impl", {"namespace"}>>, <<"constructor", {"default", "payable", "selector"}>>, <<"message", {"default", "payable", "selector"}>>,
    <<"extension", IF v = 5 THEN {} ELSE {"handle_status"}>>, <<"function", IF v = 5 THEN {"handle_status"} ELSE {}>> }
\* Arguments the attribute rules let stand alone (where they may stand is another matter: see Placement.tla).
Lone == {"derive", "env", "node", "runtime_only", "sandbox", "url"}
        \cup (IF v = 5 THEN {} ELSE {"backend", "signature_topic", "Decode", "Encode", "TypeInfo"})
AllArgs == UNION {Names(as[i]) : i \in 1..N}
Acceptable ==
  /\ \A i \in 1..N : K(i).c # "unknown" /\ Names(as[i]) \subseteq KnownArgs
  /\ \A p \in Pos : Fits(Takes(ArgAt(p), Constructor), as[p[1]].args[p[2]].f)
                    \/ (Takes(ArgAt(p), FALSE) \in {"url?", "sandbox?"} /\ as[p[1]].args[p[2]].f \in {"eq", "bad"})
  /\ \A p, q \in Pos : ArgAt(p) = ArgAt(q) => p = q
  /\ ~(v = 5 /\ {"anonymous", "signature_topic"} \subseteq AllArgs)
  /\ \/ N = 0
     \/ N = 1 /\ as[1].m # "" /\ Names(as[1]) \subseteq MacroArgs(as[1].m) /\ (v = 5 /\ as[1].m = "chain_extension" => Names(as[1]) = {"extension"})
     \/ N = 2 /\ v = 5 /\ {as[1].m, as[2].m} = {"scale_derive", "storage_item"} /\ \A i \in 1..2 : Names(as[i]) \subseteq MacroArgs(as[i].m)
     \/ /\ \A i \in 1..N : as[i].m = ""
        /\ \/ \E g \in ArgGroups : as[1].args[1].k = g[1] /\ AllArgs \subseteq {g[1]} \cup g[2] /\ ~(chain /\ v = 5 /\ g[1] = "extension")
           \/ AllArgs = {"namespace"}
           \/ \E k \in Lone : AllArgs = {k}
           \* not checked here: these belong to a macro, and are out of place without it
           \/ as[1].args[1].k = "env" /\ AllArgs = {"env", "keep_attr"}
           \/ as[1].args[1].k = "namespace" /\ AllArgs = {"namespace", "keep_attr"}
Agree == Acceptable <=> Diags = {}
\* Every report is located at an attribute or argument that is there.
Located == \A d \in Diags : d.i \in 1..N /\ d.j \in 0..Len(as[d.i].args)

Emit == PrintT(ToJson([v |-> v, chain |-> chain, as |-> [i \in 1..N |-> [m |-> as[i].m, args |-> as[i].args]], d |-> Diags, con |-> Constructor]))
=============================================================================
