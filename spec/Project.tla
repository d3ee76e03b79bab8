------------------------------- MODULE Project ------------------------------
(***************************************************************************)
(* Creating a project from a name.                                         *)
(*                                                                         *)
(* A name is a sequence of pieces.  A piece has a text, the same text with *)
(* an upper-case (ASCII) first letter, and a class:                        *)
(*   word     letters an identifier can start with                         *)
(*   digit    characters an identifier can only continue with              *)
(*   mark     alphabetic characters an identifier can only continue with   *)
(*   sign     alphabetic characters which no identifier can have           *)
(*   number   numeric characters which no identifier can have              *)
(*   line     an underscore        hyphen   a hyphen                       *)
(*   bad      any other character                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Pieces, MaxPieces,
          Keywords,   \* words which are not identifiers
          Vs          \* ink! versions

VARIABLES name, v
vars == <<name, v>>

RECURSIVE Text(_), Module(_), Pascal(_, _)
Text(n) == IF n = <<>> THEN "" ELSE Head(n).t \o Text(Tail(n))
Module(n) == IF n = <<>> THEN "" ELSE (IF Head(n).c = "hyphen" THEN "_" ELSE Head(n).t) \o Module(Tail(n))
Pascal(n, first) == IF n = <<>> THEN ""
                    ELSE IF Head(n).c \in {"line", "hyphen"} THEN Pascal(Tail(n), TRUE)
                    ELSE (IF first THEN Head(n).up ELSE Head(n).t) \o Pascal(Tail(n), FALSE)
Struct(n) == Pascal(n, TRUE)

Classes(n) == {n[i].c : i \in 1..Len(n)}
\* The pieces which the names of the module and of the struct start with.
Starts(n) == n # <<>> /\ n[1].c = "word"
Identifiers(n) == Starts(n) /\ Classes(n) \cap {"sign", "number", "bad"} = {} /\ Module(n) \notin Keywords /\ Struct(n) \notin Keywords

Outcome(n) == IF n = <<>> \/ "bad" \in Classes(n) THEN "PackageName"
              ELSE IF n[1].c \in {"digit", "number", "line", "hyphen"} THEN "ContractName"
              ELSE IF ~Identifiers(n) THEN "PackageName"
              ELSE "ok"

Init == name = <<>> /\ v \in Vs
Next == \E p \in Pieces : Len(name) < MaxPieces /\ name' = Append(name, p) /\ UNCHANGED v
Spec == Init /\ [][Next]_vars

(* A created project: the package has the given name, the crate is the      *)
(* package as an identifier, which is the contract; and nothing is lost:    *)
(* appending to an accepted name only fails for what is appended, or for a  *)
(* word which must not be used.                                            *)
Created == [package |-> Text(name), contract |-> Module(name), storage |-> Struct(name)]
OnlyIdentifiers == Outcome(name) = "ok" => Identifiers(name) /\ Struct(name) # "" /\ Module(name) # ""
EveryGoodName == (name # <<>> /\ name[1].c = "word" /\ Classes(name) \subseteq {"word", "digit", "mark", "line", "hyphen"}
                  /\ Module(name) \notin Keywords /\ Struct(name) \notin Keywords) => Outcome(name) = "ok"
Extends == [][Outcome(name) = "ok" /\ Outcome(name') # "ok"
              => name'[Len(name')].c \in {"sign", "number", "bad"} \/ Module(name') \in Keywords \/ Struct(name') \in Keywords]_vars
\* A wrong character is never made good by what follows.
Hopeless == [][(name # <<>> /\ Classes(name) \cap {"sign", "number", "bad"} # {}) => Outcome(name') # "ok"]_vars

Emit == PrintT(ToJson([v |-> v, name |-> Text(name), out |-> Outcome(name), made |-> Created]))
==============================================================================
