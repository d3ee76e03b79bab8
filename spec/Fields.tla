-------------------------------- MODULE Fields --------------------------------
(***************************************************************************)
(* Events and their fields, and identifiers reserved for ink!'s own use.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Versions, Forms, Shapes, FieldAttrs, MaxFields, Spots

VARIABLES v, form, shape, fields, reserved
vars == <<v, form, shape, fields, reserved>>

\* form: how the event is declared; shape: record or tuple struct
Init == /\ v \in Versions /\ form \in Forms /\ shape \in Shapes /\ fields = <<>> /\ reserved = {}
        /\ v = 4 => form \in {"legacy", "legacy-anonymous", "legacy-anonymous-split"}
AddField == /\ Len(fields) < MaxFields
            /\ \E s \in SUBSET FieldAttrs : Cardinality(s) <= 2 /\ fields' = Append(fields, s)
            /\ UNCHANGED <<v, form, shape, reserved>>
Reserve == /\ Cardinality(reserved) < 2
           /\ \E s \in Spots \ reserved : reserved' = reserved \cup {s}
           /\ UNCHANGED <<v, form, shape, fields>>
Next == AddField \/ Reserve
Spec == Init /\ [][Next]_vars

Ink(a) == a \notin {"cfg", "cfg-attr", "doc", "allow"}
D(m, a, j) == [m |-> m, a |-> a, j |-> j]
FieldDiags(j) ==
  UNION {
    {D("inside-event", a, j) : a \in {x \in fields[j] : Ink(x) /\ x # "topic"}},
    {D("cfg", a, j) : a \in {x \in fields[j] : x = "cfg" /\ shape = "record"}},
    {D("not-field", a, j) : a \in {x \in fields[j] : x = "topic" /\ shape # "record"}} }
\* Spots in which an identifier is written; those in strings and comments are no identifiers.
Diags == UNION {FieldDiags(j) : j \in 1..Len(fields)}
         \cup {D("reserved", s, 0) : s \in {x \in reserved : x \notin {"string", "comment", "doc", "lower"}}}

TypeOK == \A d \in Diags : d.m \in {"inside-event", "cfg", "not-field", "reserved"}
\* Topics are never a problem on record fields, and only fields with a forbidden attribute are reported.
Topics == shape = "record" => \A j \in 1..Len(fields) : fields[j] \subseteq {"topic", "doc", "allow", "cfg-attr"} => FieldDiags(j) = {}
Emit == PrintT(ToJson([v |-> v, form |-> form, shape |-> shape, fields |-> fields, reserved |-> reserved, d |-> Diags]))
=============================================================================
