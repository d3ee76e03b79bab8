------------------------------ MODULE Contract ------------------------------
(* ink! contracts as the analyser has to judge them: how many storage          *)
(* definitions, constructors and messages there are, and which selectors the   *)
(* callables end up with.  A behaviour writes a contract item by item; every   *)
(* state is one program, and Diags(p) is the exact set of reports it must get. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions,      \* subset of {4, 5}
          Storages,      \* possible numbers of storage definitions
          Contracts,     \* possible numbers of contracts in the file
          Inlines,       \* subset of BOOLEAN
          ImplShapes,    \* set of <<namespace, trait path>>
          MaxImpl, MaxCall,
          Names, CSels, MSels   \* callable names and selector forms

VARIABLE p

Complement == {"@", "iip2", "iip2d"}      \* the reserved selector, symbolically or as an integer
Explicit   == {"i1", "i1x", "i1X", "i2"} \cup Complement

\* What the trait path of an impl block contributes to derived selectors: a full
\* path (leading colons) counts as a whole, any other path by its last segment.
TraitPart(t) == CASE t = "" -> <<>>
                  [] t = "T" -> <<"T">>
                  [] t = "q::T" -> <<"T">>
                  [] t = "q::r::T" -> <<"T">>
                  [] t = "::q::T" -> <<"", "q", "T">>
                  [] t = "::T" -> <<"", "T">>
                  [] t = "::q::r::T" -> <<"", "q", "r", "T">>
                  [] t = "crate::T" -> <<"T">>

Derived(pr, c) ==
  LET im == pr.impls[c.i] IN
  (IF im[1] = "" THEN <<>> ELSE <<im[1]>>) \o TraitPart(im[2]) \o <<c.n>>

\* The selector value: an integer or (injectively) the hash of a path.
Value(pr, c) ==
  CASE c.s \in {"i1", "i1x", "i1X"} -> <<"int", "1">>
    [] c.s = "i2" -> <<"int", "2">>
    [] c.s \in Complement -> <<"int", "iip2">>
    [] c.s = "hash-a" -> <<"path", <<"a">>>>          \* an integer equal to the hash of a name
    [] OTHER -> <<"path", Derived(pr, c)>>            \* none, or a wildcard

Kind(pr, k)  == {j \in 1..Len(pr.calls) : pr.calls[j].k = k}
Wild(pr, k)  == {j \in Kind(pr, k) : pr.calls[j].s = "_"}
Compl(pr)    == {j \in Kind(pr, "m") : pr.calls[j].s \in Complement}
Others(pr)   == Kind(pr, "m") \ Wild(pr, "m")
KindName(k)  == IF k = "c" THEN "constructor" ELSE "message"

D(m, x, a, j) == [m |-> m, x |-> x, a |-> a, j |-> j]

StorageDiags(pr) ==
  IF pr.storages = 0 THEN {D("no-storage", "", "contract", 1)}
  ELSE {D("extra-storage", "", "storage", n) : n \in 2..pr.storages}

QuantityDiags(pr) ==
  {D("no-callable", KindName(k), "contract", 1) : k \in {x \in {"c", "m"} : Kind(pr, x) = {}}}

ContractDiags(pr) == {D("extra-contract", "", "contract", n) : n \in 2..pr.contracts}

InlineDiags(pr) == IF pr.inline THEN {} ELSE {D("not-inline", "", "contract", 1)}

OverlapDiags(pr) ==
  {D(IF pr.calls[j].s = "" THEN "overlap" ELSE "overlap-value", KindName(pr.calls[j].k),
     IF pr.calls[j].s = "" THEN "name" ELSE "value", j) :
     j \in {x \in 1..Len(pr.calls) :
              \E i \in 1..(x-1) : pr.calls[i].k = pr.calls[x].k /\ Value(pr, pr.calls[i]) = Value(pr, pr.calls[x])}}

WildDiags(pr) ==
  UNION {{D("wildcards", KindName(k), "selector", j) : j \in {x \in Wild(pr, k) : \E i \in Wild(pr, k) : i < x}} : k \in {"c", "m"}}

ComplementDiags(pr) ==
  IF pr.v # 5 THEN {}
  ELSE IF Wild(pr, "m") # {} THEN
    IF Others(pr) = {} THEN {D("wild-alone", "", "contract", 1)}
    ELSE {D("compl-twice", "", "selector", j) : j \in {x \in Compl(pr) : \E i \in Compl(pr) : i < x}}
         \cup {D("not-compl", "", IF pr.calls[j].s = "" THEN "call" ELSE "selector", j) : j \in Others(pr) \ Compl(pr)}
  ELSE {D("compl-only", "", "selector", j) : j \in Compl(pr)}

NamespaceDiags(pr) == {D("ns-trait", "", "namespace", i) : i \in {x \in 1..Len(pr.impls) : pr.impls[x][1] # "" /\ pr.impls[x][2] # ""
                                                    /\ \E j \in 1..Len(pr.calls) : pr.calls[j].i = x}}  \* else not an ink! impl

Diags(pr) == StorageDiags(pr) \cup QuantityDiags(pr) \cup ContractDiags(pr) \cup InlineDiags(pr)
             \cup OverlapDiags(pr) \cup WildDiags(pr) \cup ComplementDiags(pr) \cup NamespaceDiags(pr)

-----------------------------------------------------------------------------
\* The same judgement, stated once for the whole contract.
Valid(pr) ==
  /\ pr.inline /\ pr.contracts = 1 /\ pr.storages = 1
  /\ Kind(pr, "c") # {} /\ Kind(pr, "m") # {}
  /\ \A k \in {"c", "m"} : Cardinality({Value(pr, pr.calls[j]) : j \in Kind(pr, k)}) = Cardinality(Kind(pr, k))
  /\ \A k \in {"c", "m"} : Cardinality(Wild(pr, k)) <= 1
  /\ pr.v = 5 => IF Wild(pr, "m") # {} THEN Cardinality(Others(pr)) = 1 /\ Others(pr) = Compl(pr)
                 ELSE Compl(pr) = {}
  /\ \A j \in 1..Len(pr.calls) : pr.impls[pr.calls[j].i][1] = "" \/ pr.impls[pr.calls[j].i][2] = ""

Init == /\ p \in [v : Versions, inline : Inlines, contracts : Contracts, storages : Storages, impls : {<<>>}, calls : {<<>>}]
        /\ ~p.inline => p.storages = 0

AddImpl(s) == /\ p.inline /\ Len(p.impls) < MaxImpl
              /\ p' = [p EXCEPT !.impls = Append(@, s)]

AddCall(k, n, s) ==
  /\ p.impls # <<>> /\ Len(p.calls) < MaxCall
  /\ ~(p.v = 4 /\ s = "@")
  /\ p' = [p EXCEPT !.calls = Append(@, [k |-> k, n |-> n, s |-> s, i |-> Len(p.impls)])]

Next == \/ \E s \in ImplShapes : AddImpl(s)
        \/ \E n \in Names : (\E s \in CSels : AddCall("c", n, s)) \/ (\E s \in MSels : AddCall("m", n, s))

Spec == Init /\ [][Next]_p

-----------------------------------------------------------------------------
TypeOK      == Len(p.calls) <= MaxCall /\ \A j \in 1..Len(p.calls) : p.calls[j].i \in 1..Len(p.impls)
Judged      == Valid(p) <=> Diags(p) = {}
\* Every repetition is reported exactly once: reports + distinct selectors = callables.
EachReported == \A k \in {"c", "m"} :
  Cardinality({d \in OverlapDiags(p) : d.x = KindName(k)}) + Cardinality({Value(p, p.calls[j]) : j \in Kind(p, k)}) = Cardinality(Kind(p, k))
\* Kinds do not interfere: dropping all messages leaves the reports on constructors alone.
OnlyC == LET q == [p EXCEPT !.calls = SelectSeq(@, LAMBDA c : c.k = "c")] IN
  Cardinality({d \in OverlapDiags(q) \cup WildDiags(q) : d.x = "constructor"})
    = Cardinality({d \in OverlapDiags(p) \cup WildDiags(p) : d.x = "constructor"})

Emit == PrintT(ToJson([p |-> p, d |-> Diags(p)]))
=============================================================================
