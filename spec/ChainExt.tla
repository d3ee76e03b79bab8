------------------------------ MODULE ChainExt ------------------------------
(* ink! chain extensions: header, extension id (ink! 5), function ids, the     *)
(* error code type and the traits it and the types of the functions need.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions, MaxHead, MaxItems, MaxTypes,
          Ids,        \* notations of function ids; "" is a function without id
          FnShapes,   \* <<uses custom type C?, mentions Self::ErrorCode?, has a body?>>
          TypeShapes, \* records [name, gen, bound, def]
          Others,     \* other items
          Codecs,     \* how a local type gets the codec traits: sequence of <<form, set of traits>>
          Froms       \* how the error type gets FromStatusCode

VARIABLES v, ext, head, items, ec, cc, n
vars == <<v, ext, head, items, ec, cc, n>>

Traits == {"Encode", "Decode", "TypeInfo"}
HeadBase   == [vis |-> "pub", unsafe |-> "", auto |-> "", gen |-> "", super |-> ""]
HeadValues == [vis |-> {"", "pub", "pub(crate)"}, unsafe |-> {"", "unsafe"}, auto |-> {"", "auto"},
               gen |-> {"", "<T>", "<'a>"}, super |-> {"", ": Send", ": Send + 'static"}]

\* The number an id notation stands for.
Num(i) == CASE i \in {"1", "0x1", "0x0001"} -> 1 [] i \in {"2", "0x2"} -> 2 [] i \in {"10", "0xA", "0xa"} -> 10
            [] i \in {"65535", "0xFFFF"} -> 65535 [] OTHER -> -1

\* Which notations make a type implement a trait: `good` forms name the codec crates (directly, through their
\* re-exports or through imports), `bad` forms name something else.
Good(form) == form \in {"derive", "derive-ink", "derive-psc", "derive-colon", "derive-use", "derive-alias", "derive-multi", "cfg", "impl", "impl-use"}
              \/ (form = "ink5" /\ v = 5)
Implemented(c) == UNION {IF Good(c[k][1]) THEN c[k][2] ELSE {} : k \in 1..Len(c)}

D(m, x, a, j) == [m |-> m, x |-> x, a |-> a, j |-> j]

HeadDiags ==
     {D(f, "", f, 0) : f \in {g \in {"unsafe", "auto", "gen", "super"} : head[g] # ""}}
  \cup (IF head.vis = "pub" THEN {} ELSE {D("vis", "", IF head.vis = "" THEN "trait" ELSE "vis", 0)})
  \cup (IF v = 5 /\ ext = "" THEN {D("no-extension-id", "", "trait", 0)} ELSE {})

Fns     == {j \in 1..Len(items) : items[j].k = "fn"}
\* Functions whose id counts: those with the id argument of this version.
HasId(j) == items[j].id # "" /\ items[j].old = FALSE
Codes   == {j \in 1..Len(items) : items[j].k = "type" /\ items[j].t.name = "ErrorCode"}
CodeIdx == CHOOSE j \in Codes : \A i \in Codes : j <= i

FnDiags(j) ==
  LET f == items[j] IN
     (IF f.id = "" THEN {D("no-id", "", "item", j)} ELSE {})
  \cup (IF f.old THEN {D("old-id", "", "id", j)} ELSE {})
  \cup (IF HasId(j) /\ \E i \in Fns : i < j /\ HasId(i) /\ Num(items[i].id) = Num(f.id) THEN {D("dup-id", "", "id", j)} ELSE {})
  \cup (IF f.s[2] THEN {D("self-code", "", "self", j)} ELSE {})
  \cup (IF f.s[3] THEN {D("body", "", "body", j)} ELSE {})
TypeDiags(j) ==
  LET t == items[j].t IN
     (IF t.name # "ErrorCode" THEN {D("type-name", "", "name", j)} ELSE {})
  \cup (IF t.gen # "" THEN {D("type-gen", "", "gen", j)} ELSE {})
  \cup (IF t.bound # "" THEN {D("type-bound", "", "bound", j)} ELSE {})
  \cup (IF t.def = "" THEN {D("type-default", "", "item", j)} ELSE {})
  \cup (IF t.name = "ErrorCode" /\ \E i \in Codes : i < j THEN {D("dup-code", "", "item", j)} ELSE {})
ItemDiags(j) == CASE items[j].k = "fn" -> FnDiags(j) [] items[j].k = "type" -> TypeDiags(j) [] OTHER -> {D(items[j].k, "", "item", j)}

ErrorDiags ==
  IF Codes = {} THEN {D("no-code", "", "trait", 0)}
  ELSE LET def == items[CodeIdx].t.def IN
       CASE def = "" -> {}
         [] def \in {"Nope", "(u8, u8)"} -> {D("unresolved", "", "def", CodeIdx)}
         [] OTHER -> (IF ec.from \in {"impl", "impl-use", "impl-env", "impl-alias"} THEN {} ELSE {D("no-from", "", "code", 0)})
                     \cup (IF Implemented(ec.codec) = Traits THEN {} ELSE {D("codec-code", Traits \ Implemented(ec.codec), "code", 0)})

\* Only functions with an id are looked at for their types.
CustomDiags == IF (\E j \in Fns : items[j].s[1] # "" /\ items[j].id # "") /\ Implemented(cc) # Traits
               THEN {D("codec-custom", Traits \ Implemented(cc), "custom", 0)} ELSE {}

Diags == HeadDiags \cup UNION {ItemDiags(j) : j \in 1..Len(items)} \cup ErrorDiags \cup CustomDiags

-----------------------------------------------------------------------------
Init == /\ v \in Versions /\ ext \in (IF v = 5 THEN {"", "1"} ELSE {""}) /\ head = HeadBase /\ items = <<>> /\ n = 0
        /\ ec \in [from : Froms, codec : Codecs] /\ cc \in Codecs
EditHead(f, x) == /\ n < MaxHead /\ items = <<>> /\ head[f] = HeadBase[f] /\ x # head[f]
                  /\ head' = [head EXCEPT ![f] = x] /\ n' = n + 1 /\ UNCHANGED <<v, ext, items, ec, cc>>
Add(i) == /\ Len(items) < MaxItems /\ items' = Append(items, i) /\ UNCHANGED <<v, ext, head, ec, cc, n>>
AddFn(id, s, old) == (old => v = 5 /\ id # "") /\ Add([k |-> "fn", id |-> id, s |-> s, old |-> old])
AddType(t) == Cardinality({j \in 1..Len(items) : items[j].k = "type"}) < MaxTypes /\ Add([k |-> "type", t |-> t])
AddOther(o) == Add([k |-> o])
Next == \/ \E f \in DOMAIN HeadBase : \E x \in HeadValues[f] : EditHead(f, x)
        \/ \E i \in Ids : \E s \in FnShapes : \E old \in BOOLEAN : AddFn(i, s, old)
        \/ \E t \in TypeShapes : AddType(t)
        \/ \E o \in Others : AddOther(o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Valid ==
  /\ head = HeadBase /\ (v = 5 => ext # "") /\ Cardinality(Codes) = 1
  /\ \A j \in 1..Len(items) :
       \/ items[j].k = "type" /\ items[j].t.name = "ErrorCode" /\ items[j].t.gen = "" /\ items[j].t.bound = "" /\ items[j].t.def = "E"
       \/ items[j].k = "fn" /\ HasId(j) /\ ~items[j].s[2] /\ ~items[j].s[3] /\ (items[j].s[1] # "" => Implemented(cc) = Traits)
  /\ Cardinality({Num(items[j].id) : j \in Fns}) = Cardinality(Fns)
  /\ ec.from \in {"impl", "impl-use", "impl-env", "impl-alias"} /\ Implemented(ec.codec) = Traits
Judged == Valid <=> Diags = {}
\* Each repetition of an id is reported once.
IdsCounted == LET W == {j \in Fns : HasId(j)} IN
  Cardinality({d \in Diags : d.m = "dup-id"}) + Cardinality({Num(items[j].id) : j \in W}) = Cardinality(W)

Emit == PrintT(ToJson([v |-> v, ext |-> ext, head |-> head, items |-> items, ec |-> ec, cc |-> cc, d |-> Diags]))
=============================================================================
