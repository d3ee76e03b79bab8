----------------------------- MODULE Signatures -----------------------------
(* Signatures of ink! constructors, messages, trait definition messages and    *)
(* chain extension functions, of the impl block around them, and declarations  *)
(* of storage and event structs.  A behaviour starts with a correct item and   *)
(* edits one part of it at a time; Diags(s) is the exact set of reports.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions, Contexts, MaxEdits, MaxItems

VARIABLES ctx,    \* what is being written
          v,      \* ink! version
          items,  \* the functions / structs
          im,     \* the surrounding impl block
          n       \* edits made so far
vars == <<ctx, v, items, im, n>>

Callables == {"ctor", "msg", "trait-ctor", "trait-msg", "def-msg", "ext-fn"}
Structs   == {"storage", "event", "event2"}
InImpl    == {"ctor", "msg", "trait-ctor", "trait-msg"}

Base(c) == [vis   |-> IF c \in {"ctor", "msg"} \cup Structs THEN "pub" ELSE "",
            const |-> "", async |-> "", unsafe |-> "", abi |-> "", gen |-> "",
            recv  |-> CASE c \in {"msg", "trait-msg"} -> "&self" [] c = "def-msg" -> "&self" [] OTHER -> "",
            par   |-> "", dots |-> "",
            ret   |-> IF c \in {"ctor", "trait-ctor"} THEN "Self" ELSE ""]
ImplBase == [default |-> "", unsafe |-> "", gen |-> "", targs |-> ""]

Values(c) ==
  IF c \in Structs THEN [vis |-> {"", "pub", "pub(crate)", "pub(super)"}, gen |-> {"", "<T>", "<'a, T>"}]
  ELSE [vis   |-> IF c \in {"def-msg", "ext-fn"} THEN {""} ELSE {"", "pub", "pub(crate)", "pub(self)", "pub(in crate::m)"},
        const |-> {"", "const"}, async |-> {"", "async"}, unsafe |-> {"", "unsafe"},
        abi   |-> {"", "extern \"C\"", "extern"},
        gen   |-> {"", "<T>", "<'a>", "<const N: usize>"},
        recv  |-> {"", "&self", "&mut self", "&'a self", "self", "mut self", "self: Box<Self>"},
        par   |-> {"", "a: u8", "a: u8, b: [u8; 4]"},
        dots  |-> {"", "...", "args: ..."},
        ret   |-> {"", "Self", "u8", "Result<Self, u8>", "Result<(), Self>", "Selfish"}]
ImplValues == [default |-> {"", "default"}, unsafe |-> {"", "unsafe"}, gen |-> {"", "<T>", "<'a>"}, targs |-> {"", "<u8>"}]

-----------------------------------------------------------------------------
Word(c) == CASE c \in {"ctor", "trait-ctor"} -> "constructor"
             [] c \in {"msg", "trait-msg", "def-msg"} -> "message"
             [] c = "ext-fn" -> IF v = 5 THEN "function" ELSE "extension"
             [] c = "storage" -> "storage"
             [] OTHER -> "event"

D(m, a, j) == [m |-> m, x |-> Word(ctx), a |-> a, j |-> j]

FnDiags(s, j) ==
  LET ByRef == s.recv \in {"&self", "&mut self", "&'a self"}
      Restricted == s.vis \notin {"", "pub"} IN
     {D(f, f, j) : f \in {g \in {"const", "async", "unsafe", "abi", "gen", "dots"} : s[g] # ""}}
  \cup (IF Restricted /\ ctx \in InImpl THEN {D("pub-or-inherited", "vis", j)} ELSE {})
  \cup (IF ctx \in {"ctor", "msg"} /\ s.vis # "pub" THEN {D("inherent-pub", IF s.vis = "" THEN "item" ELSE "vis", j)} ELSE {})
  \cup (IF ctx \in {"trait-ctor", "trait-msg"} /\ s.vis # "" THEN {D("trait-inherited", "vis", j)} ELSE {})
  \cup (IF Word(ctx) = "message" /\ ~ByRef THEN {D("need-self-ref", "item", j)} ELSE {})
  \cup (IF Word(ctx) # "message" /\ s.recv # "" THEN {D("no-self", "recv", j)} ELSE {})
  \cup (IF Word(ctx) = "message" /\ s.ret = "Self" THEN {D("return-self", "ret", j)} ELSE {})
  \cup (IF Word(ctx) = "constructor" /\ s.ret = "" THEN {D("need-return", "item", j)} ELSE {})

StructDiags(s, j) ==
     (IF s.vis # "pub" THEN {D("struct-pub", IF s.vis = "" THEN "item" ELSE "vis", j)} ELSE {})
  \cup (IF ctx # "storage" /\ s.gen # "" THEN {D("event-gen", "gen", j)} ELSE {})

ImplDiags == {D("impl-" \o f, "impl-" \o f, 0) : f \in {g \in DOMAIN im : im[g] # ""}}

Diags == UNION {IF ctx \in Structs THEN StructDiags(items[j], j) ELSE FnDiags(items[j], j) : j \in 1..Len(items)} \cup ImplDiags

-----------------------------------------------------------------------------
Init == /\ ctx \in Contexts /\ v \in Versions /\ n = 0
        /\ ctx = "event2" => v = 5
        /\ \E k \in 1..MaxItems : items = [j \in 1..k |-> Base(ctx)]
        /\ im = ImplBase

EditItem(j, f, x) == /\ n < MaxEdits /\ items[j][f] = Base(ctx)[f] /\ x # items[j][f]
                     /\ items' = [items EXCEPT ![j][f] = x]
                     /\ n' = n + 1 /\ UNCHANGED <<ctx, v, im>>
EditImpl(f, x) == /\ ctx \in InImpl /\ n < MaxEdits /\ im[f] = "" /\ x # ""
                  /\ im' = [im EXCEPT ![f] = x]
                  /\ n' = n + 1 /\ UNCHANGED <<ctx, v, items>>

Next == \/ \E j \in 1..Len(items) : \E f \in DOMAIN Values(ctx) : \E x \in Values(ctx)[f] : EditItem(j, f, x)
        \/ \E f \in DOMAIN ImplValues : \E x \in ImplValues[f] : EditImpl(f, x)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
BaseClean == n = 0 => Diags = {}
\* One edit of one part produces reports about that part (or the item) only.
Local == \A d \in Diags : d.j = 0 \/ (\E f \in DOMAIN items[d.j] : items[d.j][f] # Base(ctx)[f])
\* Items are judged independently.
Independent == \A j \in 1..Len(items) : items[j] = Base(ctx) => ~\E d \in Diags : d.j = j

Emit == PrintT(ToJson([ctx |-> ctx, v |-> v, items |-> items, im |-> im, d |-> Diags]))
=============================================================================
