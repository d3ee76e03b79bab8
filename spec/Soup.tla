-------------------------------- MODULE Soup --------------------------------
(***************************************************************************)
(* Texts on the way from one program to another.                           *)
(*                                                                         *)
(* A text is a sequence of tokens: those of the program it started from    *)
(* (positive numbers) and fragments typed or pasted into it (negative      *)
(* numbers).  An editing history deletes, repeats, exchanges and inserts   *)
(* tokens, and cuts the text off anywhere: what an editor sends while a    *)
(* program is written.  No text is excluded.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Bases,     \* lengths of the programs to start from
          Frags,     \* numbers of the fragments
          MaxOps,
          Ops,       \* which kinds of edits
          Some       \* a random place and fragment per edit (for long histories), or all

VARIABLES base, text, log
vars == <<base, text, log>>

Whole(b) == [i \in 1..Bases[b] |-> i]
Sub(s, a, b) == SubSeq(s, a, b)
Without(s, i) == Sub(s, 1, i - 1) \o Sub(s, i + 1, Len(s))
With(s, i, x) == Sub(s, 1, i) \o <<x>> \o Sub(s, i + 1, Len(s))     \* after the first i tokens

Init == base \in 1..Len(Bases) /\ text = Whole(base) /\ log = <<>>
Pick(S) == IF Some /\ S # {} THEN {RandomElement(S)} ELSE S
Did(o, i, x) == log' = Append(log, [o |-> o, i |-> i, x |-> x])
Delete == \E i \in Pick(1..Len(text)) : text' = Without(text, i) /\ Did("delete", i, 0)
Repeat == \E i \in Pick(1..Len(text)) : text' = With(text, i, text[i]) /\ Did("repeat", i, 0)
Exchange == \E i \in Pick(1..(Len(text) - 1)) : text' = [text EXCEPT ![i] = text[i + 1], ![i + 1] = text[i]] /\ Did("exchange", i, 0)
Type == \E i \in Pick(0..Len(text)), f \in Pick(Frags) : text' = With(text, i, -f) /\ Did("type", i, -f)
Replace == \E i \in Pick(1..Len(text)), f \in Pick(Frags) : text' = [text EXCEPT ![i] = -f] /\ Did("replace", i, -f)
CutTail == \E i \in Pick(0..(Len(text) - 1)) : text' = Sub(text, 1, i) /\ Did("tail", i, 0)
CutHead == \E i \in Pick(2..Len(text)) : text' = Sub(text, i, Len(text)) /\ Did("head", i, 0)
\* The same part of the text twice.
Paste == \E i \in Pick(1..Len(text)) : \E j \in Pick((i + 1)..(i + 11)) : j <= Len(text) /\ j - i < 12 /\ text' = text \o Sub(text, i, j) /\ Did("paste", i, j)
Edit(o) == CASE o = "delete" -> Delete [] o = "repeat" -> Repeat [] o = "exchange" -> Exchange [] o = "type" -> Type [] o = "replace" -> Replace
             [] o = "tail" -> CutTail [] o = "head" -> CutHead [] o = "paste" -> Paste
Next == Len(log) < MaxOps /\ UNCHANGED base /\ \E o \in Ops : Edit(o)
Spec == Init /\ [][Next]_vars

Tokens == \A i \in 1..Len(text) : text[i] \in 1..Bases[base] \/ -text[i] \in Frags
Grown == Len(text) <= Bases[base] + 12 * Len(log)
Emit == PrintT(ToJson([b |-> base, log |-> log, len |-> Len(text)]))
==============================================================================
