------------------------------ MODULE Snippets ------------------------------
(***************************************************************************)
(* A file under construction: ink! entities are inserted one after another *)
(* by accepting what the code actions and the completions offer.           *)
(*                                                                         *)
(* The file is a function from scopes to the members they have.  Scopes:   *)
(* the file itself ("root"), the contract ("con"), the functions of its    *)
(* inherent impl blocks ("fns"), a trait definition ("tdef"), a chain      *)
(* extension ("cext"), a test module ("test"), an end-to-end test module   *)
(* ("e2e"), and the fields of an event ("ev").  A member has a kind, a     *)
(* name and, for functions of chain extensions, an id.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Scopes,     \* scopes of the file
          Stock,      \* members found in the file at the start: records [s, k, n, id]
          MaxStock, MaxInsert,
          Vs,         \* ink! versions
          Vias        \* ways of asking: on the declaration, on an empty line of the body, by completion

VARIABLES v, file, phase, log
vars == <<v, file, phase, log>>

Member(k, n, id) == [k |-> k, n |-> n, id |-> id]
All(s) == {file[s][i] : i \in 1..Len(file[s])}
Kinds(s) == {m.k : m \in All(s)}
Names(s) == {m.n : m \in All(s)}
Ids(s) == {m.id : m \in {x \in All(s) : x.k = "extension"}}
Has(s) == s \in DOMAIN file

(* ------------------------------------------------------------------ names *)
Digits == <<"2", "3", "4", "5", "6", "7", "8", "9">>
Fresh(p, used) == IF p \notin used THEN p
                  ELSE p \o Digits[CHOOSE i \in 1..8 : p \o Digits[i] \notin used /\ \A j \in 1..(i - 1) : p \o Digits[j] \in used]
FreshId(used) == CHOOSE i \in 1..(Cardinality(used) + 1) : i \notin used /\ \A j \in 1..(i - 1) : j \in used
Preferred(k) == CASE k = "storage" -> "MyThing" [] k \in {"event", "event2"} -> "Event" [] k = "constructor" -> "new" [] k = "message" -> "my_message"
                  [] k = "extension" -> (IF v = 5 THEN "my_function" ELSE "my_extension") [] k \in {"test", "e2etest"} -> "it_works" [] k = "topic" -> "my_topic"
                  [] k = "errorcode" -> "ErrorCode" [] k = "contract" -> "my_contract" [] k = "traitdef" -> "TraitDefinition" [] k = "chainext" -> "ChainExtension"
                  [] k = "combine" -> "CombinedChainExtension" [] k = "item" -> "StorageItem" [] k = "env" -> "MyEnvironment" [] OTHER -> "x"

(* ----------------------------------------------------------- what is offered *)
Wild == Has("fns") /\ "wildcard" \in Kinds("fns")
Callable == Has("fns") /\ Kinds("fns") \cap {"constructor", "message", "wildcard", "complement"} # {}
Messages == IF v = 5 /\ Wild THEN {} ELSE {"message"}
If(b, S) == IF b THEN S ELSE {}
Offer(s, via) ==
  CASE s = "root" -> If(via # "decl", If(~Has("con"), {"contract"}) \cup {"traitdef", "chainext", "item", "env"} \cup If(v = 5, {"event2", "combine"}))
    [] s = "con" -> If("storage" \notin Kinds("con"), {"storage"}) \cup {"event"} \cup If(v = 5, {"event2"})
                    \cup If(via = "decl" \/ (via = "body" /\ ~Callable), {"constructor"} \cup Messages)
    [] s = "fns" -> {"constructor"} \cup Messages
    [] s = "tdef" -> {"message"}
    [] s = "cext" -> If("errorcode" \notin Kinds("cext"), {"errorcode"}) \cup {"extension"}
    [] s = "test" -> {"test"}
    [] s = "e2e" -> {"test", "e2etest"}
    [] s = "ev" -> {"topic"}

(* ------------------------------------------------------------- insertion *)
\* Where a new member goes.
Dest(s, via, k) == IF s = "con" /\ k \in {"constructor", "message"} THEN "fns" ELSE IF s = "con" /\ k = "event2" /\ via # "comp" THEN "root" ELSE s
\* Names of entities at file level are only proposals: they are not in this model unless they are free.
Free(d, k) == d # "root" \/ Preferred(k) \notin Names("root")
New(d, k) == Member(k, IF d = "root" THEN Preferred(k) ELSE IF k = "errorcode" THEN "ErrorCode" ELSE Fresh(Preferred(k), IF Has(d) THEN Names(d) ELSE {}),
                    IF k = "extension" THEN FreshId(Ids("cext")) ELSE 0)
Plus(f, d, m) == IF d \in DOMAIN f THEN [f EXCEPT ![d] = Append(@, m)] ELSE [s \in DOMAIN f \cup {d} |-> IF s = d THEN <<m>> ELSE f[s]]
\* A new contract has a storage, a constructor, a message and test modules.
Whole == [s \in {"con", "fns", "test", "e2e"} |->
            CASE s = "con" -> <<Member("storage", "MyContract", 0)>>
              [] s = "fns" -> <<Member("constructor", "new", 0), Member("message", "my_message", 0)>>
              [] s = "test" -> <<Member("test", "it_works", 0)>>
              [] s = "e2e" -> <<Member("e2etest", "it_works", 0)>>]
Inserted(s, via, k) ==
  LET d == Dest(s, via, k)
      f == Plus(file, d, New(d, k))
  IN IF k = "contract" THEN [x \in DOMAIN f \cup DOMAIN Whole |-> IF x \in DOMAIN Whole THEN Whole[x] ELSE f[x]]
     ELSE f

(* ------------------------------------------------------------ what is missing *)
Missing == If(Has("con") /\ "storage" \notin Kinds("con"), {"storage"})
           \cup If(Has("con") /\ ~(Has("fns") /\ "constructor" \in Kinds("fns")), {"constructor"})
           \cup If(Has("con") /\ ~(Has("fns") /\ Kinds("fns") \cap {"message", "wildcard", "complement"} # {}), {"message"})
           \cup If(Has("tdef") /\ "message" \notin Kinds("tdef"), {"traitmessage"})
           \cup If(Has("cext") /\ "errorcode" \notin Kinds("cext"), {"errorcode"})

(* ------------------------------------------------------------- behaviours *)
Init == v \in Vs /\ phase = "stock" /\ log = <<>> /\ file = [s \in Scopes |-> <<>>]
Stocked == LET n[s \in SUBSET Scopes] == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN Len(file[x]) + n[s \ {x}] IN n[Scopes]
Single == {"storage", "errorcode", "wildcard", "complement"}
\* A wildcard selector needs its complement, and no other message, in ink! 5; complements are new in ink! 5.
Whole5 == LET k == Kinds("fns") IN Has("fns") => /\ (v = 4 => "complement" \notin k)
                                                /\ (v = 5 /\ k \cap {"wildcard", "complement"} # {} => {"wildcard", "complement"} \subseteq k /\ "message" \notin k)
Find(m) == /\ phase = "stock" /\ Stocked < MaxStock /\ m.s \in Scopes
           /\ m.n \notin Names(m.s)
           /\ m.k = "event2" => v = 5
           /\ m.k = "extension" => m.id \notin Ids(m.s)
           /\ m.k \in Single => m.k \notin Kinds(m.s)
           /\ file' = [file EXCEPT ![m.s] = Append(@, Member(m.k, m.n, m.id))] /\ UNCHANGED <<v, phase, log>>
Start == phase = "stock" /\ Whole5 /\ phase' = "edit" /\ UNCHANGED <<v, file, log>>
Insert(s, via, k) ==
  /\ phase = "edit" /\ Len(log) < MaxInsert /\ k \in Offer(s, via) /\ Free(Dest(s, via, k), k)
  /\ file' = Inserted(s, via, k)
  /\ log' = Append(log, [s |-> s, via |-> via, k |-> k, before |-> file, missing |-> Missing, offer |-> Offer(s, via)])
  /\ UNCHANGED <<v, phase>>
Next == (\E m \in Stock : Find(m)) \/ Start \/ \E s \in DOMAIN file, via \in Vias : \E k \in Offer(s, via) : Insert(s, via, k)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------- properties *)
Unique(s) == \A i, j \in 1..Len(file[s]) : i # j => file[s][i].n # file[s][j].n
NoNameTwice == \A s \in DOMAIN file : Unique(s)
NoIdTwice == Has("cext") => Cardinality(Ids("cext")) = Cardinality({i \in 1..Len(file["cext"]) : file["cext"][i].k = "extension"})
OneOfASort == \A s \in DOMAIN file : \A k \in Single : Cardinality({i \in 1..Len(file[s]) : file[s][i].k = k}) <= 1
OneContract == Cardinality({i \in 1..Len(file["root"]) : file["root"][i].k = "contract"}) <= 1
SelectorsFit == phase = "edit" => Whole5
\* Nothing that was there is missing afterwards.
NothingNewMissing == [][phase = "edit" => (Missing' \subseteq Missing)]_vars
Grows == [][\A s \in DOMAIN file : s \in DOMAIN file' /\ \A m \in All(s) : m \in {file'[s][i] : i \in 1..Len(file'[s])}]_vars

Offers == [s \in DOMAIN file |-> [via \in Vias |-> Offer(s, via)]]
Emit == IF phase = "edit" THEN PrintT(ToJson([v |-> v, log |-> log, file |-> file, missing |-> Missing, offers |-> Offers])) ELSE TRUE
==============================================================================
