------------------------------- MODULE Suggest -------------------------------
(***************************************************************************)
(* What is offered for the ink! attributes of an item: code actions with   *)
(* the cursor on the item or on one of its attributes, and completions in  *)
(* an attribute being written.  A state is an item with its attributes, in *)
(* a scope, and a place of the cursor.  What is offered is stated as a     *)
(* table lookup restricted by the version, the kind of item, the nearest   *)
(* annotated ancestor and the attributes already there; the invariants     *)
(* relate it to the independent model of the diagnostics (Attrs.tla):      *)
(*   Sound: accepting an offer adds no unknown, repeated or conflicting    *)
(*          name;                                                          *)
(*   Full:  whatever could be added to acceptable attributes without a     *)
(*          report, and is allowed in the scope, is offered.               *)
(***************************************************************************)
EXTENDS Attrs

CONSTANTS Items,   \* kinds of items
          Scopes,  \* where the item stands
          Foci,    \* where the cursor is
          Natural  \* only write attributes which the item could have

VARIABLES item, scope, focus
svars == <<v, as, chain, item, scope, focus>>

After(x) == INSTANCE Attrs WITH as <- x

(* ---------------------------------------------------------------- scopes *)
A(k) == [c |-> "arg", k |-> k]
M(k) == [c |-> "macro", k |-> k]
\* The nearest annotated ancestor (at most one attribute).
Ancestor(s) ==
  CASE s \in {"contract", "contract-mod", "contract-impl", "contract-timpl", "contract-test", "contract-e2e", "contract-body", "contract-struct"} -> {M("contract")}
    [] s = "ink-impl" -> {A("impl")}
    [] s = "ns-impl" -> {A("namespace")}
    [] s = "message-body" -> {A("message")}
    [] s = "test-body" -> {M("test")}
    [] s = "e2e-body" -> {M("e2e_test")}
    [] s = "trait_definition" -> {M("trait_definition")}
    [] s = "chain_extension" -> {M("chain_extension")}
    [] s = "event" -> {A("event")}
    [] s = "event2" -> {M("event")}
    [] s = "storage" -> {A("storage")}
    [] s = "storage_item" -> {M("storage_item")}
    [] OTHER -> {}
CfgTest(s) == s \in {"test-mod", "e2e-mod", "contract-test", "contract-e2e"}
CfgE2e(s) == s \in {"e2e-mod", "contract-e2e"}

\* Which items can stand where.
In(s) ==
  CASE s \in {"root", "mod", "contract", "contract-mod", "contract-test", "contract-e2e", "test-mod", "e2e-mod", "body", "contract-body", "message-body", "test-body", "e2e-body"} ->
         {"struct", "enum", "union", "fn", "mod", "trait", "impl", "timpl", "type", "const"}
    [] s \in {"impl", "trait", "contract-impl", "contract-timpl", "ink-impl", "ns-impl", "trait_definition", "chain_extension"} -> {"fn", "const"}
    [] OTHER -> {"field"}

\* What may stand inside an annotated item.
DescArgs(a) ==
  CASE a = M("chain_extension") -> {IF v = 5 THEN "function" ELSE "extension", "handle_status"}
    [] a = M("contract") -> {"anonymous", "constructor", "default", "event", "impl", "message", "namespace", "payable", "selector", "storage"}
                            \cup (IF v = 5 THEN {"signature_topic"} ELSE {})
    [] a = M("trait_definition") -> {"default", "message", "payable", "selector"}
    [] a \in {A("impl"), A("namespace")} -> {"constructor", "default", "message", "payable", "selector"}
    [] a = A("event") -> {"topic"}
    [] a = M("event") -> IF v = 5 THEN {"topic"} ELSE {}
    [] OTHER -> {}
DescMacros(a) ==
  CASE a = M("contract") -> {"chain_extension", "storage_item", "test", "trait_definition", "e2e_test"} \cup (IF v = 5 THEN {"event", "scale_derive"} ELSE {})
    [] a \in {M("chain_extension"), M("trait_definition"), M("test"), M("e2e_test"), A("impl"), A("namespace"), A("message")} -> IF v = 5 THEN {"scale_derive"} ELSE {}
    [] OTHER -> {}
ScopeArgs == IF Ancestor(scope) = {} THEN KnownArgs ELSE UNION {DescArgs(a) : a \in Ancestor(scope)}
ScopeMacros == IF Ancestor(scope) = {} THEN KnownMacros ELSE UNION {DescMacros(a) : a \in Ancestor(scope)}

\* What a kind of item can be.
KindArgs ==
  CASE item = "struct" -> {"anonymous", "event", "storage"} \cup (IF v = 5 THEN {"signature_topic"} ELSE {})
    [] item = "fn" -> {"constructor", "default", "handle_status", "message", "payable", "selector", IF v = 5 THEN "function" ELSE "extension"}
    [] item \in {"impl", "timpl"} -> {"impl", "namespace"}
    [] item = "field" -> {"topic"}
    [] OTHER -> {}
KindMacros ==
  CASE item = "mod" -> {"contract"}
    [] item = "trait" -> {"chain_extension", "trait_definition"}
    [] item = "struct" -> {"storage_item"} \cup (IF v = 5 THEN {"event", "scale_derive"} ELSE {})
    [] item \in {"enum", "union"} -> {"storage_item"} \cup (IF v = 5 THEN {"scale_derive"} ELSE {})
    [] item = "fn" -> {"test", "e2e_test"}
    [] OTHER -> {}

(* ---------------------------------------------------------------- offers *)
Own(k) == IF k.c = "macro" THEN MacroArgs(k.k) ELSE Beside(k.k)
Pair(k, l) == v = 5 /\ {k, l} \subseteq {M("scale_derive"), M("storage_item")}
\* Restrictions by what is there already.
Fresh(S) == S \ AllArgs
Events == {M("event"), A("event"), A("anonymous"), A("signature_topic")}
Topic(S) == IF v = 5 /\ Known # {} /\ K(Primary) \in Events
            THEN S \ ((IF HasArg("anonymous") THEN {"signature_topic"} ELSE {}) \cup (IF HasArg("signature_topic") THEN {"anonymous"} ELSE {}))
            ELSE S
NoNs(S) == IF item = "timpl" THEN S \ {"namespace"} ELSE S
\* Messages of a trait implementation follow the trait: nothing is offered for them.
TraitMessage == item = "fn" /\ scope = "contract-timpl" /\ Known # {} /\ A("message") \in {K(i) : i \in 1..N}

ItemArgs ==
  IF Known = {} THEN NoNs(Fresh(KindArgs)) \cap ScopeArgs
  ELSE LET s == NoNs(Topic(Fresh(Own(K(Primary))))) IN IF K(Primary).c = "macro" THEN s ELSE s \cap ScopeArgs
\* In attribute i (nothing is known of an attribute without a known name: its item decides).
AttrArgs(i, base) ==
  LET s == NoNs(Fresh(IF K(i).c = "unknown" THEN base ELSE Own(K(i))))
      t == IF Known = {} \/ Pair(K(i), K(Primary)) THEN s ELSE Topic(s \cap Own(K(Primary)))
  IN IF K(i).c = "macro" \/ (K(i).c = "unknown" /\ as[i].m # "") THEN t ELSE t \cap ScopeArgs

MacroOffers(cfg) == IF N > 0 THEN {} ELSE {m \in KindMacros \cap ScopeMacros : cfg => (m = "test" => CfgTest(scope)) /\ (m = "e2e_test" => CfgE2e(scope))}

\* Cursor on the item; on attribute Cur; behind the last argument of attribute Cur; in a new attribute.
\* Attributes are looked at from the last one or ("..1") from the first one; a new attribute goes behind or before the others.
Foc == CASE focus = "attr1" -> "attr" [] focus = "arg1" -> "arg" [] focus = "new1" -> "new" [] OTHER -> focus
Cur == IF focus \in {"attr1", "arg1"} THEN 1 ELSE N
\* The cursor needs something to be on.
Ready == /\ (focus # Foc => N > 1 \/ (focus = "new1" /\ N > 0))
         /\ CASE Foc = "attr" -> N > 0 [] Foc = "arg" -> N > 0 /\ item \notin {"type", "const"} [] OTHER -> TRUE
Args0 == CASE ~Ready -> {}
           [] Foc = "item" -> IF TraitMessage \/ item = "const" THEN {} ELSE ItemArgs
           [] Foc = "attr" -> IF TraitMessage THEN {} ELSE AttrArgs(Cur, {})
           [] Foc = "arg" -> AttrArgs(Cur, KindArgs)
           [] OTHER -> {}
Macros0 == CASE Foc = "item" -> MacroOffers(TRUE) [] Foc = "new" -> MacroOffers(FALSE) [] OTHER -> {}

(* ----------------------------------------------- the text after accepting *)
Given(k) == [k |-> k, f |-> IF k = "signature_topic" THEN "s-empty" ELSE CHOOSE f \in Forms : Fits(Takes(k, FALSE), f)]
Put(i, k) == [as EXCEPT ![i].args = IF k \in Entity /\ Foc # "arg" THEN <<Given(k)>> \o @ ELSE Append(@, Given(k))]
With(k) == IF focus = "item" THEN IF Known = {} THEN Append(as, [m |-> "", args |-> <<Given(k)>>]) ELSE Put(Primary, k)
           ELSE Put(Cur, k)

Class(m) == CASE m \in {"unknown", "unknown-arg"} -> "unknown" [] m \in {"dup-arg", "dup-macro"} -> "dup" [] OTHER -> "conflict"
Harmful == {"unknown", "unknown-arg", "dup-arg", "dup-macro", "conflict-first", "conflict-primary", "conflict-own", "conflict-arg", "conflict-args"}
Harm(ds, x) == {<<Class(d.m), IF d.j = 0 THEN x[d.i].m ELSE x[d.i].args[d.j].k, IF d.j = 0 THEN d.i ELSE 0>> : d \in {d \in ds : d.m \in Harmful /\ (d.j = 0 \/ x[d.i].args[d.j].k \in KnownArgs)}}
\* Nothing unknown is there, save an attribute that is being written.
Clear == \A i \in 1..N : K(i).c # "unknown" \/ (i = Cur /\ Foc = "arg" /\ as[i] = [m |-> "", args |-> <<>>])
Sound == Clear =>
         /\ \A k \in Args0 : Harm(After(With(k))!Diags, With(k)) \subseteq Harm(Diags, as)
         /\ \A m \in Macros0 : Harm(After(Append(as, [m |-> m, args |-> <<>>]))!Diags, Append(as, [m |-> m, args |-> <<>>])) = {}
\* An argument that leaves acceptable attributes acceptable (up to its value) and suits the item and its scope.
Suits(k) == /\ After(With(k))!Diags \subseteq {d \in After(With(k))!Diags : d.m \in {"value", "arg-not-first"}}
            /\ (N = 0 => k \in KindArgs)
            /\ (N = 0 \/ K(1).c # "macro" => k \in ScopeArgs)
            /\ ~(item = "timpl" /\ k = "namespace")
Full == ((Acceptable \/ N = 0) /\ ~TraitMessage /\ Ready /\ ~(focus = "item" /\ item = "const") /\ Foc \in {"item", "attr", "arg"}) => \A k \in KnownArgs : Suits(k) => k \in Args0

(* ------------------------------------------------------------ flattening *)
\* All #[ink(..)] attributes can be merged into the one that says what the item is, entities first.
Others == {i \in 1..N : i # Primary /\ as[i].m = ""}
CanFlatten == focus = "item" /\ item # "const" /\ Known # {} /\ Others # {}
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : i <= j IN as[i].args \o Cat(S \ {i})
ByRank(s) == SelectSeq(s, LAMBDA x : Rank(x.k) = 0) \o SelectSeq(s, LAMBDA x : Rank(x.k) = 1) \o SelectSeq(s, LAMBDA x : Rank(x.k) = 2)
FlatAttr == [m |-> as[Primary].m, args |-> ByRank(as[Primary].args \o Cat(Others))]
RECURSIVE Rest(_)
Rest(i) == IF i > N THEN <<>> ELSE (IF i = Primary THEN <<FlatAttr>> ELSE IF i \in Others THEN <<>> ELSE <<as[i]>>) \o Rest(i + 1)
Flat == IF CanFlatten THEN Rest(1) ELSE <<>>
\* Merging loses nothing, and acceptable attributes stay acceptable.
FlatSound == CanFlatten => /\ Acceptable => After(Flat)!Acceptable
                           /\ After(Flat)!AllArgs = AllArgs

(* --------------------------------------------------------------- actions *)
Possible == Natural => /\ \A i \in 1..Len(as') : as'[i].m \in KindMacros \cup {"", "foo"}
                       /\ \A i \in 1..Len(as') : Names(as'[i]) \subseteq KindArgs \cup {"bar"} \cup MacroArgs(as'[i].m)
Place == /\ item \in Items /\ scope \in Scopes /\ item \in In(scope)
         /\ chain = (scope = "chain_extension")
SInit == v \in Versions /\ as = <<>> /\ chain \in BOOLEAN /\ item \in Items /\ scope \in Scopes /\ Place /\ focus \in Foci
SNext == /\ (AddAttr \/ AddArg)
         /\ Possible
         /\ UNCHANGED <<item, scope, focus>>
SSpec == SInit /\ [][SNext]_svars

SEmit == Ready => PrintT(ToJson([v |-> v, item |-> item, scope |-> scope, focus |-> focus, as |-> as,
                                 args |-> {[k |-> k, as |-> With(k)] : k \in Args0}, macros |-> Macros0, flat |-> Flat,
                                 scoped |-> Ancestor(scope) # {}, others |-> N > 0, known |-> Known # {}, clear |-> Clear, om |-> \E i \in 1..N : as[i].m # ""]))
=============================================================================
