------------------------------ MODULE Handshake ------------------------------
(***************************************************************************)
(* Capability negotiation: what the server announces for what the client   *)
(* offers.  A state is a client's offer, built up element by element.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS MaxEnc, MaxKinds

VARIABLES
    encs,     \* <<"none">> (no list offered) or the offered position encodings, in order of preference
    kinds     \* <<"none">> (no literal support) or the offered code action kinds
vars == <<encs, kinds>>

EncUniverse  == {"utf-8", "utf-16", "utf-32", "utf-7"}
KindUniverse == {"", "quickfix", "refactor", "refactor.rewrite", "refactor.extract", "refactor.inline", "source"}
ServerKinds  == <<"", "quickfix", "refactor", "refactor.rewrite">>

Absent == <<"none">>

\* UTF-8 or UTF-32, whichever comes first, else UTF-16.
Encoding(es) ==
    LET cand == {i \in 1..Len(es) : es[i] \in {"utf-8", "utf-32"}}
    IN IF es = Absent \/ cand = {} THEN "utf-16" ELSE es[CHOOSE i \in cand : \A j \in cand : i <= j]

\* The server's kinds that the client lists, in the server's order; <<>> means "plainly supported".
Kinds(ks) == IF ks = Absent THEN <<>> ELSE SelectSeq(ServerKinds, LAMBDA k : k \in Range(ks))

Init == encs = Absent /\ kinds = Absent
AddEnc == /\ encs = Absent \/ Len(encs) < MaxEnc
          /\ \/ encs = Absent /\ encs' = <<>>
             \/ encs # Absent /\ \E e \in EncUniverse : encs' = Append(encs, e)
          /\ kinds' = kinds
AddKind == /\ kinds = Absent \/ Len(kinds) < MaxKinds
           /\ \/ kinds = Absent /\ kinds' = <<>>
              \/ kinds # Absent /\ \E k \in KindUniverse : kinds' = Append(kinds, k)
           /\ encs' = encs
\* The two dimensions are independent: explore each fully with the other at rest, and mix them at small sizes.
Next == \/ AddEnc /\ (kinds = Absent \/ Len(encs) <= 1)
        \/ AddKind /\ (encs = Absent \/ Len(kinds) <= 1)
Spec == Init /\ [][Next]_vars

(* Properties *)
Usable == Encoding(encs) = "utf-16" \/ Encoding(encs) \in Range(encs)
Preferred == encs # Absent => \A i \in 1..Len(encs) : encs[i] \in {"utf-8", "utf-32"} => Encoding(encs) \in {"utf-8", "utf-32"}
Common == \A i \in 1..Len(Kinds(kinds)) : Kinds(kinds)[i] \in Range(kinds) /\ Kinds(kinds)[i] \in Range(ServerKinds)
Complete == kinds # Absent => \A k \in Range(kinds) : k \in Range(ServerKinds) => k \in Range(Kinds(kinds))

Emit == PrintT(ToJson([encs |-> encs, kinds |-> kinds, enc |-> Encoding(encs), common |-> Kinds(kinds)]))
=============================================================================
