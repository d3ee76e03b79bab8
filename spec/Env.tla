--------------------------------- MODULE Env ---------------------------------
(***************************************************************************)
(* The environment a contract (`env`) or an end-to-end test                *)
(* (`environment`) is configured with: the value must denote a type of the *)
(* file that implements `ink::env::Environment`, or the default            *)
(* environment of ink!. Modules, imports, aliases and paths as in Rust.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions,
          Sites,     \* "contract", "test-file", "test-contract", "test-mod": what carries the argument
          PlaceSets, \* sets of modules which declare a type E
          Paths,     \* argument values (sequences of segments)
          Uses,      \* at most one import of the module of the site: <<>> or <<path, alias>>
          Impls      \* how the trait is implemented for E

VARIABLES v, site, places, path, use, imp
vars == <<v, site, places, path, use, imp>>

Modules == {<<>>, <<"tr">>, <<"c">>, <<"c", "tr">>, <<"c", "tests">>}
Here == CASE site = "contract" -> <<"c">>      \* the attribute is read inside the module it is on
          [] site = "test-file" -> <<>>
          [] site = "test-contract" -> <<"c">>
          [] site = "test-mod" -> <<"c", "tests">>
Butl(s) == SubSeq(s, 1, Len(s) - 1)
Fin(s)  == s[Len(s)]
None == <<"?">>
UseName == IF use = <<>> THEN "" ELSE IF use[2] = "" THEN Fin(use[1]) ELSE use[2]

RECURSIVE Walk(_, _)
Walk(m, segs) == IF segs = <<>> THEN m
                 ELSE IF Append(m, segs[1]) \in Modules THEN Walk(Append(m, segs[1]), SubSeq(segs, 2, Len(segs)))
                 ELSE None
\* Qualifiers without imports ...
Base(m, segs) ==
  IF segs = <<>> THEN m
  ELSE LET r == SubSeq(segs, 2, Len(segs)) IN
       CASE segs[1] = "crate" -> Walk(<<>>, r)
         [] segs[1] = "self"  -> Walk(m, r)
         [] segs[1] = "super" -> IF m = <<>> THEN None ELSE Walk(Butl(m), r)
         [] OTHER -> Walk(m, segs)
\* ... and with the import of the module of the site (a name, a renamed name or all names of a module).
ModOf(m, segs) ==
  IF segs = <<>> \/ Base(m, segs) # None \/ m # Here \/ use = <<>> \/ segs[1] \in {"crate", "self", "super"} THEN Base(m, segs)
  ELSE IF Fin(use[1]) = "*" THEN LET b == Base(m, Butl(use[1])) IN IF b = None THEN None ELSE Walk(b, segs)
  ELSE IF segs[1] = UseName THEN LET b == Base(m, use[1]) IN IF b = None THEN None ELSE Walk(b, SubSeq(segs, 2, Len(segs)))
  ELSE None
Direct(m, name) == IF m # None /\ m \in places /\ name = "E" THEN m ELSE None
ViaUse(name) ==
  IF use = <<>> THEN None
  ELSE IF Fin(use[1]) = "*" THEN Direct(Base(Here, Butl(use[1])), name)
  ELSE IF name = UseName THEN Direct(Base(Here, Butl(use[1])), Fin(use[1]))
  ELSE None
Resolved ==
  LET m == ModOf(Here, Butl(path)) IN
  IF m = None THEN None
  ELSE IF Direct(m, Fin(path)) # None THEN Direct(m, Fin(path))
  ELSE IF m = Here THEN ViaUse(Fin(path)) ELSE None

\* The same path spelled out with the import of the module, if it applies.
Strip(p) == IF p[1] = "::" THEN SubSeq(p, 2, Len(p)) ELSE p
Spelled ==
  {Strip(path)} \cup
  (IF use = <<>> THEN {}
   ELSE IF Fin(use[1]) = "*" THEN (IF Len(path) = 1 THEN {Strip(Butl(use[1])) \o path} ELSE {})
   ELSE IF path[1] = UseName THEN {Strip(use[1]) \o SubSeq(path, 2, Len(path))} ELSE {})
IsDefault == \E p \in Spelled : p \in {<<"ink", "env", "DefaultEnvironment">>, <<"ink_env", "DefaultEnvironment">>}

Diags == IF Resolved = None
         THEN IF IsDefault THEN {} ELSE {"unresolved"}
         ELSE IF imp \in {"none", "other-trait", "other-crate"} THEN {"no-impl"} ELSE {}

Init == /\ v \in Versions /\ site \in Sites /\ places \in PlaceSets /\ path \in Paths /\ use \in Uses /\ imp \in Impls
        /\ places = {} => imp = "none"
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* An accepted value denotes something: never both a file type and a diagnostic about resolution.
Sound == /\ (Diags = {} => (Resolved \in places \/ IsDefault))
         /\ (Resolved # None /\ imp = "full" => Diags = {})
         /\ (Resolved = None /\ ~IsDefault => "unresolved" \in Diags)
Emit == PrintT(ToJson([v |-> v, site |-> site, places |-> places, path |-> path, use |-> use, imp |-> imp, at |-> Resolved, d |-> Diags]))
=============================================================================
