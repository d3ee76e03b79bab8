------------------------------ MODULE Answers -------------------------------
(***************************************************************************)
(* Queries and their answers: the trace of a process that was asked about  *)
(* many texts, in any order and repeatedly.  A text has a length and       *)
(* "holes": offsets inside a character.  An event is a query with its      *)
(* answer: the ranges it mentions, the edits of each of its proposals and  *)
(* a digest of all of it.                                                  *)
(*                                                                         *)
(* The analysis is a function of the text: every query has an answer, in   *)
(* bounds, with edits that can be applied together, and it is the same     *)
(* answer whenever the query is asked, whatever was asked before.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES at, asked, wrong
vars == <<at, asked, wrong>>

Holes(t) == {t.holes[i] : i \in 1..Len(t.holes)}
Offset(t, o) == o \in 0..t.n /\ o \notin Holes(t)
InText(t, r) == r[1] <= r[2] /\ Offset(t, r[1]) /\ Offset(t, r[2])
Apart(r, q) == r[2] <= q[1] \/ q[2] <= r[1]
CanApply(es) == \A i, j \in 1..Len(es) : i < j => Apart(es[i], es[j])

Total(t, e) == e.fail = ""
InBounds(t, e) == /\ \A i \in 1..Len(e.ranges) : InText(t, e.ranges[i])
                  /\ \A i \in 1..Len(e.edits) : \A j \in 1..Len(e.edits[i]) : InText(t, e.edits[i][j])
Applicable(t, e) == \A i \in 1..Len(e.edits) : CanApply(e.edits[i])
Consistent(t, e) == e.note = ""
SameAsBefore(t, k) == \A m \in 1..(k - 1) : t.ev[m].q = t.ev[k].q => t.ev[m].digest = t.ev[k].digest
Why(t, k) == LET e == t.ev[k] IN
  IF ~Total(t, e) THEN "no answer" ELSE IF ~InBounds(t, e) THEN "out of bounds" ELSE IF ~Applicable(t, e) THEN "overlapping edits"
  ELSE IF ~Consistent(t, e) THEN "inconsistent" ELSE IF ~SameAsBefore(t, k) THEN "another answer than before" ELSE ""

Init == at = 0 /\ asked = 0 /\ wrong = 0
Next == /\ at < Len(Trace) /\ at' = at + 1
        /\ LET t == Trace[at + 1]
               w == {k \in 1..Len(t.ev) : Why(t, k) # ""}
           IN /\ asked' = asked + Len(t.ev)
              /\ wrong' = wrong + Cardinality(w)
              /\ \A k \in w : PrintT(ToJson([id |-> t.id, q |-> t.ev[k].q, why |-> Why(t, k)]))
Spec == Init /\ [][Next]_vars
Done == at = Len(Trace) => PrintT(ToJson([asked |-> asked, wrong |-> wrong]))
==============================================================================
