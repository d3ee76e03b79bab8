------------------------------ MODULE Migrate -------------------------------
(***************************************************************************)
(* Migration of a source file from ink! 4 to ink! 5.                       *)
(*                                                                         *)
(* A file is a sequence of items followed by a contract module with items  *)
(* of its own.  Items are abstract terms which are rendered to Rust text   *)
(* both before and after the migration, so `Mig' fixes the whole text.     *)
(*   fn    a function with a body of expressions                           *)
(*   type  a data type with attributes (derives in various shapes)         *)
(*   event a legacy event (contract only), sevent a stand-alone one        *)
(*   ext   a chain extension with an optional id and functions with ids    *)
(*   e2e   an end-to-end test, in a module of its own or right here        *)
(*   other anything else                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS RootItems, ConItems, MaxItems, Imports

VARIABLES root, con, imp, ins
vars == <<root, con, imp, ins>>

NoIns == [root |-> {}, con |-> {}]
Doc == [root |-> root, con |-> con, imp |-> imp, ins |-> ins]

Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Where(s, T(_)) == SelectSeq(s, T)

(* ----------------------------------------------------------- expressions *)
\* A path names the item of the crate if it is qualified, or imported into the module.
Known(p, i) == p \in {"ink::env::", "ink_env::", "ink::env::call::", "ink_env::call::", "ink_e2e::"} \/ (p = "" /\ i)

RECURSIVE MigE(_, _)
MigE(e, i) ==
  IF e.k = "x" THEN e
  ELSE LET s == MigE(e.e, i) IN
    CASE e.k \in {"ctx", "same"} -> [e EXCEPT !.e = s]
      [] e.k = "host"    -> [e EXCEPT !.e = s, !.v = IF Known(e.p, i) THEN 5 ELSE @]
      [] e.k = "env"     -> [e EXCEPT !.e = s, !.v = 5]
      [] e.k = "bcall"   -> [e EXCEPT !.e = s, !.v = IF Known(e.p, i) THEN 5 ELSE @]
      [] e.k = "bcreate" -> [e EXCEPT !.e = s, !.v = IF Known(e.p, i) THEN 5 ELSE @]
      [] e.k = "cnew"    -> [e EXCEPT !.e = s, !.v = IF Known(e.p, i) THEN 5 ELSE @, !.p = IF Known(e.p, i) THEN "ink::env::call::" ELSE @]
      [] e.k = "client"  -> [e EXCEPT !.e = s, !.v = 5]
      [] e.k = "msg"     -> [e EXCEPT !.e = s, !.v = 5]

\* The backend traits which the calls of an end-to-end test need.
RECURSIVE Needs(_)
Needs(e) ==
  IF e.k = "x" THEN {}
  ELSE Needs(e.e) \cup (IF e.k # "client" THEN {}
       ELSE IF e.m \in {"balance", "create_and_fund_account", "runtime_call"} THEN {"use ink_e2e::ChainBackend;"}
       ELSE {"use ink_e2e::ContractsBackend;"})

RECURSIVE OldE(_, _)
OldE(e, i) == e.k # "x" /\ (OldE(e.e, i) \/ CASE e.k \in {"ctx", "same"} -> FALSE
                                               [] e.k \in {"host", "bcall", "bcreate", "cnew"} -> e.v = 4 /\ Known(e.p, i)
                                               [] OTHER -> e.v = 4)

(* ------------------------------------------------------------ attributes *)
\* Which argument of `scale_derive' a derived trait becomes.
Codec(t) == CASE t \in {"scale::Encode", "::scale::Encode", "parity_scale_codec::Encode", "ink::scale::Encode"} -> "Encode"
              [] t \in {"scale::Decode", "parity_scale_codec::Decode"} -> "Decode"
              [] t \in {"scale_info::TypeInfo", "::scale_info::TypeInfo"} -> "TypeInfo"
              [] OTHER -> ""
IsCodec(t) == Codec(t) # ""
NotCodec(t) == Codec(t) = ""
Derives(a) == IF a.k \in {"derive", "cfg"} THEN a.l ELSE <<>>
Codecs(a) == Map(Where(Derives(a), IsCodec), Codec)
\* A trait derived under several conditions is derived once.
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Once(SelectSeq(Tail(s), LAMBDA x : x # Head(s)))
AllCodecs(as) == Once(Cat(Map(as, Codecs)))
MigAttr(a) == IF Codecs(a) = <<>> THEN <<a>>
              ELSE LET rest == Where(a.l, NotCodec)
                   IN IF rest # <<>> THEN <<[a EXCEPT !.l = rest]>>
                      ELSE IF a.k = "cfg" /\ (a.pre \/ a.post) THEN <<[a EXCEPT !.l = <<>>]>> ELSE <<>>
MigAttrs(as) ==
  LET hit == {i \in 1..Len(as) : Codecs(as[i]) # <<>>}
  IN IF hit = {} THEN as
     ELSE LET f == CHOOSE i \in hit : \A j \in hit : i <= j
          IN Cat(Map(SubSeq(as, 1, f - 1), MigAttr)) \o <<[k |-> "scale", l |-> AllCodecs(as)]>> \o Cat(Map(SubSeq(as, f, Len(as)), MigAttr))

(* ----------------------------------------------------------------- items *)
\* Legacy events keep their attributes; the ink! ones become one.
Anonymous(as) == \E i \in 1..Len(as) : as[i].k = "ink" /\ "anonymous" \in {as[i].l[j] : j \in 1..Len(as[i].l)}
MigEvent(e) ==
  LET one(a) == IF a.k # "ink" THEN <<a>>
                ELSE IF a.l[1] = "event" THEN <<[k |-> "event", l |-> IF Anonymous(e.a) THEN <<"anonymous">> ELSE <<>>]>> ELSE <<>>
  IN [e EXCEPT !.k = "sevent", !.a = Cat(Map(MigAttrs(@), one))]

Deprecated == {"build_message", "MessageBuilder"}
Keep(n) == n \notin Deprecated
MigUses(us) == Where(Map(us, LAMBDA u : [u EXCEPT !.l = Where(@, Keep)]), LAMBDA u : u.l # <<>>)
MigArg(a) == IF a = "extension" THEN "function" ELSE a
MigFn(f) == Map(f, LAMBDA as : Map(as, MigArg))

NeedsAll(b) == UNION {Needs(b[i]) : i \in 1..Len(b)}
MigItem(it, i) ==
  CASE it.k = "fn"   -> [it EXCEPT !.b = Map(@, LAMBDA e : MigE(e, i))]
    [] it.k = "type" -> [it EXCEPT !.a = MigAttrs(@)]
    [] it.k = "ext"  -> [it EXCEPT !.f = Map(@, MigFn)]
    [] it.k = "e2e"  -> [it EXCEPT !.args = Where(@, LAMBDA a : a = "environment"), !.v = 5,
                                   !.uses = MigUses(@), !.ins = IF it.loc = "mod" THEN @ \cup NeedsAll(it.b) ELSE @,
                                   !.b = Map(@, LAMBDA e : MigE(e, i /\ it.loc = "here"))]
    [] it.k \in {"other", "sevent"} -> it

\* Chain extensions without an id get the smallest ids that are free, in order.
RECURSIVE Number(_, _)
Number(its, used) ==
  IF its = <<>> THEN <<>>
  ELSE LET it == Head(its)
       IN IF it.k = "ext" /\ it.id = 0
          THEN LET n == CHOOSE n \in 1..10 : n \notin used /\ \A m \in 1..(n - 1) : m \in used
               IN <<[it EXCEPT !.id = n]>> \o Number(Tail(its), used \cup {n})
          ELSE <<it>> \o Number(Tail(its), used)
Ids(its) == {its[i].id : i \in {j \in 1..Len(its) : its[j].k = "ext"}} \ {0}

IsEvent(it) == it.k = "event"
NoEvent(it) == it.k # "event"
Here(its) == UNION {NeedsAll(its[i].b) : i \in {j \in 1..Len(its) : its[j].k = "e2e" /\ its[j].loc = "here"}}
Use(e) == "use super::" \o e.n \o ";"

Mig(d) ==
  LET r == Number(Map(d.root, LAMBDA it : MigItem(it, "root" \in d.imp)), Ids(d.root))
      ev == Where(d.con, IsEvent)
      c == Map(Where(d.con, NoEvent), LAMBDA it : MigItem(it, "con" \in d.imp))
  IN [d EXCEPT !.root = r \o Map(ev, MigEvent), !.con = c,
               !.ins = [root |-> d.ins.root \cup Here(d.root),
                        con |-> d.ins.con \cup Here(d.con) \cup {Use(ev[i]) : i \in 1..Len(ev)}]]

(* --------------------------------------------------------------- writing *)
Init == root = <<>> /\ con = <<>> /\ imp \in Imports /\ ins = NoIns
Name(it, n) == IF "n" \in DOMAIN it THEN [it EXCEPT !.n = @ \o ToString(n)] ELSE it
AddRoot(it) == Len(root) + Len(con) < MaxItems /\ root' = Append(root, Name(it, Len(root))) /\ UNCHANGED <<con, imp, ins>>
AddCon(it) == Len(root) + Len(con) < MaxItems /\ con' = Append(con, Name(it, Len(con))) /\ UNCHANGED <<root, imp, ins>>
Next == (\E it \in RootItems : AddRoot(it)) \/ (\E it \in ConItems : AddCon(it))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What a migration has to achieve. *)
OldItem(it, i) ==
  CASE it.k = "event" -> TRUE
    [] it.k = "fn"    -> \E j \in 1..Len(it.b) : OldE(it.b[j], i)
    [] it.k \in {"type", "sevent"} -> AllCodecs(it.a) # <<>>
    [] it.k = "ext"   -> it.id = 0 \/ \E f \in 1..Len(it.f) : \E a \in 1..Len(it.f[f]) : \E j \in 1..Len(it.f[f][a]) : it.f[f][a][j] = "extension"
    [] it.k = "e2e"   -> it.v = 4 \/ (\E j \in 1..Len(it.args) : it.args[j] # "environment") \/ (\E j \in 1..Len(it.b) : OldE(it.b[j], i /\ it.loc = "here"))
                         \/ \E j \in 1..Len(it.uses) : \E m \in 1..Len(it.uses[j].l) : ~Keep(it.uses[j].l[m])
    [] OTHER -> FALSE
Old(d) == (\E i \in 1..Len(d.root) : OldItem(d.root[i], "root" \in d.imp)) \/ (\E i \in 1..Len(d.con) : OldItem(d.con[i], "con" \in d.imp))
Complete == ~Old(Mig(Doc))
Idempotent == LET m == Mig(Doc) IN Mig(m) = m
\* Nothing gets lost: every item, attribute that derives nothing new, derived trait, function and statement is still there.
Traits(its) == UNION {IF its[i].k \in {"type", "event", "sevent"}
                      THEN LET as == its[i].a IN {<<i, c>> : c \in {AllCodecs(as)[j] : j \in 1..Len(AllCodecs(as))}
                               \cup UNION {{as[j].l[x] : x \in 1..Len(as[j].l)} : j \in {y \in 1..Len(as) : as[y].k = "scale"}}}
                      ELSE {} : i \in 1..Len(its)}
Lossless == LET m == Mig(Doc)
                all == Len(root) + Len(con)
            IN /\ Len(m.root) + Len(m.con) = all
               /\ Cardinality({i \in 1..Len(con) : con[i].k = "event"}) = Cardinality({i \in 1..Len(m.root) : m.root[i].k = "sevent"})
               /\ SubSeq(Map(m.root, LAMBDA it : it.k), 1, Len(root)) = Map(root, LAMBDA it : it.k)
               /\ {t \in Traits(m.root) : t[1] <= Len(root)} = Traits(root)
               /\ Cardinality(Ids(m.root)) >= Cardinality(Ids(root))
Unrelated == ~Old(Doc) => Mig(Doc) = Doc
Distinct == LET m == Mig(Doc)
                e == {i \in 1..Len(m.root) : m.root[i].k = "ext"}
                given == \A i \in e : root[i].id = 0 \/ \A j \in e : root[j].id = root[i].id => i = j
            IN given => \A i, j \in e : m.root[i].id = m.root[j].id => i = j

Emit == PrintT(ToJson([d |-> Doc, m |-> Mig(Doc)]))
=============================================================================
