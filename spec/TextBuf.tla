------------------------------ MODULE TextBuf -------------------------------
(* A text buffer.  `text` is the edited text (what the user of the language    *)
(* server sees); `lines` is how a line-oriented buffer keeps it.  An edit      *)
(* replaces the range (l1,c1)..(l2,c2), lines and columns counted from 0;      *)
(* columns behind the end of a line mean its end.                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LF == "\n"
CR == "\r"
RECURSIVE Lines(_)
Lines(t) == LET E == {k \in 1..Len(t) : t[k] = LF}
                m == CHOOSE x \in E : \A y \in E : x <= y
            IN IF E = {} THEN <<t>> ELSE <<SubSeq(t, 1, m-1)>> \o Lines(SubSeq(t, m+1, Len(t)))
RECURSIVE Joined(_, _)
Joined(ls, eol) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o eol \o Joined(Tail(ls), eol)
\* CR LF as LF
RECURSIVE Lf(_)
Lf(t) == IF t = <<>> THEN <<>>
         ELSE IF Len(t) >= 2 /\ t[1] = CR /\ t[2] = LF THEN <<LF>> \o Lf(SubSeq(t, 3, Len(t)))
         ELSE <<t[1]>> \o Lf(Tail(t))
Least(x, y) == IF x < y THEN x ELSE y
RECURSIVE LineStart(_, _)
LineStart(ls, k) == IF k = 0 THEN 0 ELSE LineStart(ls, k-1) + Len(ls[k]) + 1
Offset(t, k, col) == LET ls == Lines(t) IN LineStart(ls, k) + Least(col, Len(ls[k+1]))
Edit(t, l1, c1, l2, c2, new) ==
    SubSeq(t, 1, Offset(t, l1, c1)) \o Lf(new) \o SubSeq(t, Offset(t, l2, c2) + 1, Len(t))
\* the same, line by line
LineEdit(ls, l1, c1, l2, c2, new) ==
    LET n == Lines(Lf(new))
        head == SubSeq(ls[l1+1], 1, Least(c1, Len(ls[l1+1])))
        tail == SubSeq(ls[l2+1], c2 + 1, Len(ls[l2+1]))
        mid == IF Len(n) = 1 THEN <<head \o n[1] \o tail>>
               ELSE <<head \o n[1]>> \o SubSeq(n, 2, Len(n)-1) \o <<n[Len(n)] \o tail>>
    IN SubSeq(ls, 1, l1) \o mid \o SubSeq(ls, l2 + 2, Len(ls))

CONSTANTS MaxText, MaxNew
Strings(n) == UNION {[1..k -> {"a", "b", LF}] : k \in 0..n}
VARIABLES text, lines, version
Init == text \in Strings(MaxText) /\ lines = Lines(text) /\ version = 0
Next == \E l1 \in 0..(Len(lines)-1) : \E l2 \in l1..(Len(lines)-1) :
        \E c1 \in 0..(Len(lines[l1+1])+1) : \E c2 \in 0..(Len(lines[l2+1])+1) : \E new \in Strings(MaxNew) :
        /\ l1 < l2 \/ c1 <= c2
        /\ text' = Edit(text, l1, c1, l2, c2, new)
        /\ lines' = LineEdit(lines, l1, c1, l2, c2, new)
        /\ version' = version + 1
Bound == Len(text) <= MaxText /\ version <= 2
Agree == Joined(lines, <<LF>>) = text /\ lines = Lines(text)
Advances == [][version' > version]_<<text, lines, version>>
=============================================================================
