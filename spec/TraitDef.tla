------------------------------ MODULE TraitDef ------------------------------
(* ink! trait definitions: what the trait header and its items may look like. *)
(* A behaviour edits the header of a correct trait and adds items to it;       *)
(* Diags is the exact set of reports the definition must get.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions, MaxHead, MaxItems, MsgArgs, OtherItems

VARIABLES v, head, items, n
vars == <<v, head, items, n>>

HeadBase   == [vis |-> "pub", unsafe |-> "", auto |-> "", gen |-> "", super |-> ""]
HeadValues == [vis |-> {"", "pub", "pub(crate)", "pub(super)", "pub(self)"}, unsafe |-> {"", "unsafe"}, auto |-> {"", "auto"},
               gen |-> {"", "<T>", "<'a>", "<T: Clone, const N: usize>"}, super |-> {"", ": Send", ": Send + 'static"}]

\* Items: messages with some arguments, plain functions, and everything else a trait can contain.
Item  == [k : {"msg"}, a : MsgArgs, body : BOOLEAN] \cup [k : {"fn"}, a : {"", "other"}, body : BOOLEAN]
         \cup [k : OtherItems, a : {""}, body : {FALSE}]

D(m, a, j) == [m |-> m, a |-> a, j |-> j]

HeadDiags ==
     {D(f, f, 0) : f \in {g \in {"unsafe", "auto", "gen", "super"} : head[g] # ""}}
  \cup (IF head.vis = "pub" THEN {} ELSE {D("vis", IF head.vis = "" THEN "trait" ELSE "vis", 0)})

ItemDiags(i, j) ==
     (IF i.k \in {"const", "macro", "type"} THEN {D(i.k, "item", j)} ELSE {})
  \cup (IF i.k = "fn" THEN {D("not-message", "item", j)} ELSE {})
  \cup (IF i.body THEN {D("body", "body", j)} ELSE {})
  \cup (IF i.k = "msg" /\ i.a = "wild" THEN {D("wildcard", "selector", j)} ELSE {})

Messages == {j \in 1..Len(items) : items[j].k = "msg"}

Diags == HeadDiags \cup UNION {ItemDiags(items[j], j) : j \in 1..Len(items)}
         \cup (IF Messages = {} THEN {D("no-message", "trait", 0)} ELSE {})

Init == v \in Versions /\ head = HeadBase /\ items = <<>> /\ n = 0
EditHead(f, x) == /\ n < MaxHead /\ items = <<>> /\ head[f] = HeadBase[f] /\ x # head[f]
                  /\ head' = [head EXCEPT ![f] = x] /\ n' = n + 1 /\ UNCHANGED <<v, items>>
AddItem(i) == /\ Len(items) < MaxItems /\ ~(v = 4 /\ i.a = "at")
              /\ items' = Append(items, i) /\ UNCHANGED <<v, head, n>>
Next == (\E f \in DOMAIN HeadBase : \E x \in HeadValues[f] : EditHead(f, x)) \/ (\E i \in Item : AddItem(i))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Clean == Diags = {} <=> /\ head = HeadBase /\ items # <<>>
                        /\ \A j \in 1..Len(items) : items[j].k = "msg" /\ ~items[j].body /\ items[j].a # "wild"
\* The judgement of an item does not depend on its neighbours.
ItemLocal == \A j \in 1..Len(items) : {d \in Diags : d.j = j} = ItemDiags(items[j], j)

Emit == PrintT(ToJson([v |-> v, head |-> head, items |-> items, d |-> Diags]))
=============================================================================
