------------------------------ MODULE Positions ------------------------------
(***************************************************************************)
(* Positions as the client sees them (line, code units of the negotiated   *)
(* encoding) versus places in the document (byte offsets), for every text  *)
(* over a small alphabet of glyphs of different widths.                    *)
(* The glyph "@" stands for an ink! attribute of AttrLen ASCII characters  *)
(* (the landmark the driver can observe); all others are single characters.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt

CONSTANTS Glyphs, MaxBefore, MaxAfter, AttrLen, Pre, Post
\* Pre/Post: widths of the ASCII delimiters put around the glyphs before / after the attribute.

VARIABLES before, after
vars == <<before, after>>

Encodings == {"utf-8", "utf-16", "utf-32"}

\* Code units of a glyph in an encoding ("a": ASCII, "e": 2 bytes, "u": 3 bytes, "g": 4 bytes / surrogate pair,
\* "n": line feed, "r": carriage return, "@": the attribute, "(" and ")": the ASCII delimiters).
Units(g, enc) ==
    CASE g = "@" -> AttrLen
      [] g = "(" -> Pre
      [] g = ")" -> Post
      [] g \in {"a", "n", "r"} -> 1
      [] g = "e" -> IF enc = "utf-8" THEN 2 ELSE 1
      [] g = "u" -> IF enc = "utf-8" THEN 3 ELSE 1
      [] g = "g" -> IF enc = "utf-8" THEN 4 ELSE IF enc = "utf-16" THEN 2 ELSE 1

\* The document.
Text == <<"(">> \o before \o <<")", "@", "(">> \o after \o <<")">>

RECURSIVE Sum(_, _)
Sum(s, enc) == IF s = <<>> THEN 0 ELSE Units(Head(s), enc) + Sum(Tail(s), enc)

\* Glyphs which consist of several characters can be entered at any unit.
Splittable(g) == g \in {"@", "(", ")"}

NumLines == 1 + Cardinality({i \in 1..Len(Text) : Text[i] = "n"})
LineBreaks == SetToSortSeq({i \in 1..Len(Text) : Text[i] = "n"}, <)
\* First and last glyph index of a line (0-based line number), without its line feed.
LineFirst(l) == IF l = 0 THEN 1 ELSE LineBreaks[l] + 1
LineLast(l) == IF l + 1 = NumLines THEN Len(Text) ELSE LineBreaks[l + 1] - 1

Bytes(i) == Sum(SubSeq(Text, 1, i), "utf-8")                                   \* offset of the end of glyph i
LineOf(i) == Cardinality({j \in 1..i : Text[j] = "n"})                          \* line of the place after glyph i

\* The position of the place after glyph i.
PosOf(i, enc) == [line |-> LineOf(i), char |-> Sum(SubSeq(Text, LineFirst(LineOf(i)), i), enc)]

\* The place of a position: a byte offset, or -1 if there is none.
PlaceOf(l, c, enc) ==
    IF l >= NumLines THEN -1
    ELSE LET lo == LineFirst(l)  hi == LineLast(l)
             Before(i) == Sum(SubSeq(Text, lo, i), enc)     \* units before the place after glyph i
         IN IF c >= Before(hi) THEN Bytes(hi)               \* beyond the end means the end of the line
            ELSE LET i == CHOOSE k \in lo..hi : Before(k - 1) <= c /\ c < Before(k)
                 IN IF c = Before(i - 1) THEN Bytes(i - 1)
                    ELSE IF Splittable(Text[i]) THEN Bytes(i - 1) + (c - Before(i - 1))
                    ELSE -1                                  \* inside a character

\* Interesting positions: around every glyph boundary of every line, far beyond its end, and lines that do not exist.
CharsOf(l, enc) == LET bs == {Sum(SubSeq(Text, LineFirst(l), i), enc) : i \in (LineFirst(l) - 1)..LineLast(l)}
                   IN {c \in UNION {{b - 1, b, b + 1, b + 2} : b \in bs} : c >= 0} \cup {1000, 2147483647}
Probes(enc) == UNION {{<<l, c>> : c \in CharsOf(l, enc)} : l \in 0..(NumLines - 1)} \cup {<<NumLines, 0>>, <<NumLines + 3, 1>>, <<NumLines, 1000>>}

AttrIndex == Len(before) + 3
AttrStart == Bytes(AttrIndex - 1)

--------------------------------------------------------------------------
Init == before = <<>> /\ after = <<>>
Next == \/ Len(before) < MaxBefore /\ after = <<>> /\ \E g \in Glyphs : before' = Append(before, g) /\ after' = after
        \/ Len(after) < MaxAfter /\ \E g \in Glyphs : after' = Append(after, g) /\ before' = before
Spec == Init /\ [][Next]_vars

(* Properties *)
RoundTrip == \A enc \in Encodings, i \in 0..Len(Text) : LET p == PosOf(i, enc) IN PlaceOf(p.line, p.char, enc) = Bytes(i)
Ordered == \A enc \in Encodings, i \in 0..(Len(Text) - 1) :
    LET p == PosOf(i, enc)  q == PosOf(i + 1, enc) IN p.line < q.line \/ (p.line = q.line /\ p.char < q.char)
Clamped == \A enc \in Encodings, l \in 0..(NumLines - 1) : PlaceOf(l, 5000, enc) = Bytes(LineLast(l))
NoLine == \A enc \in Encodings, c \in {0, 7} : PlaceOf(NumLines, c, enc) = -1

Table(enc) == [start |-> PosOf(AttrIndex - 1, enc), end |-> PosOf(AttrIndex, enc),
               probes |-> {<<p[1], p[2], PlaceOf(p[1], p[2], enc)>> : p \in Probes(enc)}]
Emit == PrintT(ToJson([before |-> before, after |-> after, attr |-> AttrStart,
                       t8 |-> Table("utf-8"), t16 |-> Table("utf-16"), t32 |-> Table("utf-32")]))
=============================================================================
