------------------------------ MODULE Imports -------------------------------
(***************************************************************************)
(* Modules that define, import and re-export names, in any order, with any *)
(* cycles and ambiguities; some ink! entity refers to one of the names.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Decls,     \* declarations: records [m (module), k (def/use/glob/alias), p (path), n (name)]
          Refs,      \* paths the entity refers to
          MaxDecls

VARIABLES decls, ref
vars == <<decls, ref>>
Init == decls = <<>> /\ ref \in Refs
Next == \E d \in Decls : Len(decls) < MaxDecls /\ (\A i \in 1..Len(decls) : decls[i] # d) /\ decls' = Append(decls, d) /\ UNCHANGED ref
Spec == Init /\ [][Next]_vars
NoneTwice == \A i, j \in 1..Len(decls) : i # j => decls[i] # decls[j]
Emit == PrintT(ToJson([d |-> decls, r |-> ref]))
==============================================================================
