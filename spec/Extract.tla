------------------------------ MODULE Extract -------------------------------
(***************************************************************************)
(* Moving an event out of a contract into a package of its own.            *)
(*                                                                         *)
(* The module around the event is a sequence of elements: inner attributes *)
(* and inner documentation ("in"), imports ("use"), other items ("item")   *)
(* and the event itself ("event").  An event has comments and attributes   *)
(* in front of it, a name (a sequence of characters) and a body.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Elems,      \* elements of the module besides the event
          MaxElems,   \* how many of them
          Pieces,     \* comments and attributes of the event
          MaxPieces,
          Names, Bodies, Places, Cursors, Taken, Deps

VARIABLES mod, ev, place, cur, taken, dep
vars == <<mod, ev, place, cur, taken, dep>>

Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
At(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

(* ----------------------------------------------------------------- names *)
Uppers == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
Lowers == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
SetOf(s) == {s[i] : i \in 1..Len(s)}
Upper(c) == c \in SetOf(Uppers)
Letter(c) == Upper(c) \/ c \in SetOf(Lowers)
Low(c) == IF Upper(c) THEN Lowers[At(Uppers, c)] ELSE c
\* Words begin at capital letters after anything else than a capital letter, and are separated by underscores.
RECURSIVE Hyphenate(_, _, _)
Hyphenate(n, upper, hyphen) ==
  IF n = <<>> THEN <<>>
  ELSE LET c == Head(n) IN
    IF c = "_" THEN (IF hyphen THEN <<>> ELSE <<"-">>) \o Hyphenate(Tail(n), FALSE, TRUE)
    ELSE (IF Upper(c) /\ ~upper /\ ~hyphen THEN <<"-">> ELSE <<>>) \o <<Low(c)>> \o Hyphenate(Tail(n), Upper(c), FALSE)
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = "-" THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
Keywords == {"as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let",
             "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use",
             "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield"}
\* The characters of the package name; a keyword cannot be the name of a crate.
Plain(n) == Trim(Hyphenate(n, TRUE, FALSE))
Package(n) == IF Join(Plain(n)) \in Keywords THEN Plain(n) \o <<"-", "e", "v", "e", "n", "t">> ELSE Plain(n)
Crate(n) == Map(Package(n), LAMBDA c : IF c = "-" THEN "_" ELSE c)

(* ------------------------------------------------------------ the package *)
Is(p, k) == p.k = k
Comments(e) == SelectSeq(e.pieces, LAMBDA p : p.k = "comment")
Others(e) == SelectSeq(e.pieces, LAMBDA p : p.k = "attr")
Args(e) == Cat(Map(SelectSeq(e.pieces, LAMBDA p : p.k \in {"ink", "event"}), LAMBDA p : p.l))
KeptArgs(e) == SelectSeq(Args(e), LAMBDA a : a # "event")
Source(e) == [comments |-> Comments(e), attrs |-> Others(e), arg |-> KeptArgs(e), body |-> e.body, name |-> e.name]
Free == {i \in 0..10 : i \notin taken}
Dir == CHOOSE i \in Free : \A j \in Free : i <= j

(* ------------------------------------------------------------- the module *)
IsEvent(i) == mod[i].k = "event"
Uses == {i \in 1..Len(mod) : mod[i].k = "use"}
Inner == {i \in 1..Len(mod) : mod[i].k = "in"}
Max(S) == CHOOSE i \in S : \A j \in S : j <= i
\* The import goes behind the imports, or else behind the inner attributes and documentation, or else to the start.
Where == IF Uses # {} THEN Max(Uses) ELSE IF Inner # {} THEN Max(Inner) ELSE 0
Import == [k |-> "import", t |-> "use " \o Join(Crate(ev.name)) \o "::" \o Join(ev.name) \o ";"]
Result == SelectSeq(SubSeq(mod, 1, Where) \o <<Import>> \o SubSeq(mod, Where + 1, Len(mod)), LAMBDA x : x.k # "event")

Complete == \E i \in 1..Len(mod) : IsEvent(i)
Begins(n) == Letter(n[1])
OnEvent == cur \notin {"item", "module"}
Possible == Complete /\ OnEvent /\ place # "file" /\ Begins(ev.name) /\ Free # {} /\ ~dep
Out == IF Possible THEN [ok |-> TRUE, src |-> Source(ev), mod |-> Result, pkg |-> Join(Package(ev.name)), crate |-> Join(Crate(ev.name)), dir |-> Dir]
       ELSE [ok |-> FALSE]

(* ---------------------------------------------------------------- writing *)
Event == [k |-> "event", t |-> ""]
Init == /\ mod = <<>> /\ place \in Places /\ cur \in Cursors /\ taken \in Taken /\ dep \in Deps
        /\ \E n \in Names, b \in Bodies : ev = [pieces |-> <<>>, name |-> n, body |-> b]
\* Inner attributes can only be at the start of the module.
AddElem(e) == /\ Len(mod) < MaxElems + (IF Complete THEN 1 ELSE 0)
              /\ e.k = "in" => \A i \in 1..Len(mod) : mod[i].k = "in"
              /\ mod' = Append(mod, e) /\ UNCHANGED <<ev, place, cur, taken, dep>>
AddEvent == ~Complete /\ mod' = Append(mod, Event) /\ UNCHANGED <<ev, place, cur, taken, dep>>
IsInk(p) == p.k \in {"ink", "event"}
\* One event attribute, whose arguments can be in an attribute of their own.
Fits(p) == LET have == {i \in 1..Len(ev.pieces) : IsInk(ev.pieces[i])}
               all == Cat(Map(SelectSeq(Append(ev.pieces, p), IsInk), LAMBDA q : q.l))
           IN IsInk(p) => /\ Cardinality(have) < 2
                          /\ \A i, j \in 1..Len(all) : i # j => all[i] # all[j]
                          /\ Cardinality(SetOf(all) \ {"event"}) <= 1
                          /\ \A i \in have : IsInk(ev.pieces[i]) /\ ev.pieces[i].k = p.k => "event" \notin SetOf(p.l)
                          /\ p.k = "event" => have = {}
                          /\ (p.k = "ink" /\ "event" \notin SetOf(p.l)) => \E i \in have : ev.pieces[i].k = "ink"
                          /\ (p.k = "ink" /\ "event" \in SetOf(p.l)) => have = {}
AddPiece(p) == Len(ev.pieces) < MaxPieces /\ Fits(p) /\ ev' = [ev EXCEPT !.pieces = Append(@, p)] /\ UNCHANGED <<mod, place, cur, taken, dep>>
Next == (\E e \in Elems : AddElem(e)) \/ AddEvent \/ (\E p \in Pieces : AddPiece(p))
Spec == Init /\ [][Next]_vars

Ready == Complete /\ \E i \in 1..Len(ev.pieces) : IsInk(ev.pieces[i])
-----------------------------------------------------------------------------
Rest(s, k) == SelectSeq(s, LAMBDA x : x.k # k)
OnlyTheEvent == Ready /\ Possible => Rest(Result, "import") = Rest(mod, "event") /\ \E i \in 1..Len(Result) : Result[i].k = "import"
NothingLost == Ready /\ Possible =>
  /\ Len(Comments(ev)) + Len(Others(ev)) = Cardinality({i \in 1..Len(ev.pieces) : ~IsInk(ev.pieces[i])})
  /\ \A p \in {ev.pieces[i] : i \in {j \in 1..Len(ev.pieces) : IsInk(ev.pieces[j])}} : \A i \in 1..Len(p.l) : p.l[i] = "event" \/ p.l[i] \in SetOf(KeptArgs(ev))
ValidImport == Ready /\ Possible => Where >= Cardinality(Inner)
ValidName == LET p == Package(ev.name) IN
  Begins(ev.name) => /\ Len(p) > 0 /\ p[1] # "-" /\ p[Len(p)] # "-" /\ Join(Crate(ev.name)) \notin Keywords
                     /\ \A i \in 1..Len(p) : ~Upper(p[i]) /\ (i > 1 => ~(p[i] = "-" /\ p[i - 1] = "-"))
Emit == Ready => PrintT(ToJson([mod |-> mod, ev |-> [ev EXCEPT !.name = Join(@)], place |-> place, pkg |-> Join(Package(ev.name)), cur |-> cur, taken |-> taken, dep |-> dep,
                                out |-> IF Possible THEN [Out EXCEPT !.src.name = Join(@)] ELSE Out]))
=============================================================================
