------------------------------- MODULE Repair --------------------------------
(***************************************************************************)
(* Quickfix sessions.  A state is a text with its diagnostics; a step      *)
(* applies one quickfix of one of them.  Texts and steps are recorded from *)
(* the real analyser (one line of the log per text, the first of every     *)
(* session marked); the specification says which steps are repairs and     *)
(* that every session ends.                                                *)
(*                                                                         *)
(* A line is [start, errs, fixes]; a fix is [bad, errs, before, after,     *)
(* twin, cls, named, names, del, ins, to]: whether its edits are malformed,*)
(* the syntax errors behind it, how often its diagnostic is reported       *)
(* before and after, whether another attribute or argument of the same     *)
(* kind takes over the diagnostic, what it announces in its title (class   *)
(* and tokens), the tokens it deletes and inserts (and the names of the    *)
(* arguments among the deleted ones), and the line of the resulting text   *)
(* (0: not followed further).                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES node, fix       \* the text, and the fix taken last there
vars == <<node, fix>>

Fixes(n) == Log[n].fixes
RInit == fix = 0 /\ node \in {n \in 1..Len(Log) : Log[n].start}
\* Picking a quickfix, and applying it.
Pick == fix = 0 /\ \E i \in 1..Len(Fixes(node)) : fix' = i /\ UNCHANGED node
Apply == fix # 0 /\ Fixes(node)[fix].to # 0 /\ node' = Fixes(node)[fix].to /\ fix' = 0
RSpec == RInit /\ [][Pick \/ Apply]_vars /\ WF_vars(Pick) /\ WF_vars(Apply)

(* -------------------------------------------------- what a title permits *)
Count(s, t) == Cardinality({i \in 1..Len(s) : s[i] = t})
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE ""
End(s) == At(s, Len(s))
Strip(s) == IF At(s, 1) = "," THEN Tail(s) ELSE IF End(s) = "," THEN SubSeq(s, 1, Len(s) - 1) ELSE s
Balanced(s) == Count(s, "(") = Count(s, ")") /\ Count(s, "[") = Count(s, "]") /\ Count(s, "{") = Count(s, "}")
Enclosed(s, a, b) == At(s, 1) = a /\ End(s) = b /\ Count(s, a) = Count(s, b)
None(s) == s = <<>>
Within(s, t) == \A i \in 1..Len(s) : s[i] = "," \/ Count(s, s[i]) <= Count(t, s[i])
Visibility(s) == At(s, 1) = "pub" /\ (Len(s) = 1 \/ Enclosed(Tail(s), "(", ")"))

Frame(f) ==
  LET d == Strip(f.del)
      gone == None(f.ins)
  IN CASE f.cls = "attribute" -> gone /\ f.del = f.named
       [] f.cls = "argument" -> gone /\ Balanced(d) /\ f.names = f.named
       [] f.cls = "value" -> Len(f.names) = 1 /\ f.names = f.named /\ f.ins = f.named /\ Balanced(d) /\ At(d, 1) = f.ins[1] /\ Len(d) > 1
       [] f.cls = "keyword" -> gone /\ f.del = f.named
       [] f.cls = "no visibility" -> gone /\ Visibility(f.del)
       [] f.cls = "visibility" -> f.ins = f.named /\ (None(f.del) \/ Visibility(f.del))
       [] f.cls = "abi" -> gone /\ At(d, 1) = "extern" /\ Len(d) <= 2
       [] f.cls = "generics" -> gone /\ Enclosed(f.del, "<", ">")
       [] f.cls = "body" -> f.ins = <<";">> /\ Enclosed(f.del, "{", "}")
       [] f.cls = "bounds" -> gone /\ At(f.del, 1) = ":" /\ Balanced(f.del) /\ Count(f.del, "{") = 0 /\ Count(f.del, ";") = 0
       [] f.cls = "receiver" -> gone /\ Count(d, "self") = 1 /\ Count(d, ",") = 0
       [] f.cls = "result" -> gone /\ At(d, 1) = "-" /\ At(d, 2) = ">" /\ Balanced(d) /\ Count(d, "{") = 0 /\ Count(d, ";") = 0
       [] f.cls = "variadic" -> gone /\ At(d, Len(d)) = "." /\ Count(d, ",") = 0
       [] f.cls = "item" -> gone /\ ~None(d) /\ Balanced(d) /\ End(d) # ","
       [] f.cls = "reorder" -> Within(f.del, f.ins) /\ Within(f.ins, f.del)
       [] f.cls = "move" -> Within(f.del, f.ins)
       [] f.cls = "annotate" -> At(f.ins, 1) = "#" /\ Balanced(f.ins) /\ Balanced(f.del) /\ At(f.del, 1) \in {"", "#"} /\ End(f.del) \in {"", "]"}
                                /\ \A i \in 1..Len(f.del) : f.del[i] = "#" => At(f.del, i + 2) \in {"ink", "ink_e2e"}
       [] f.cls = "inline" -> f.del = <<";">> /\ Enclosed(f.ins, "{", "}")
       [] f.cls = "add" -> None(f.del) /\ ~gone /\ Balanced(f.ins)
       [] f.cls = "rename" -> Len(f.del) = 1 /\ f.ins = f.named
       [] f.cls = "unique" -> Len(f.del) = 1 /\ Len(f.ins) = 1 /\ f.ins # f.del
       [] f.cls = "replace" -> Within(f.named, f.ins) /\ Balanced(f.del) /\ Balanced(f.ins) /\ Count(f.del, ",") <= 1
       [] OTHER -> TRUE

(* ------------------------------------------------------------ properties *)
Broken(n, f) ==
  (IF f.bad THEN {"malformed edits"} ELSE {}) \cup
  (IF ~f.bad /\ f.errs > n.errs THEN {"syntax errors"} ELSE {}) \cup
  (IF ~f.bad /\ f.after >= f.before /\ ~f.twin THEN {"diagnostic remains"} ELSE {}) \cup
  (IF ~Frame(f) THEN {"changes something else"} ELSE {})
\* Prints what is wrong with the fix just picked.
REmit == (fix # 0 /\ Broken(Log[node], Fixes(node)[fix]) # {}) => PrintT(ToJson([n |-> node, f |-> fix, broken |-> Broken(Log[node], Fixes(node)[fix])]))
\* Whatever is picked, no quickfix is left some time.
Ends == <>((fix = 0 /\ Len(Fixes(node)) = 0) \/ (fix # 0 /\ Fixes(node)[fix].to = 0))
=============================================================================
