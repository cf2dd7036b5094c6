------------------------------ MODULE StrView -------------------------------
(* What the operations of a string view yield: those of the string of the      *)
(* characters it shows.  A view is a text with two bounds; views of views      *)
(* are taken with Python's slice bounds (None = 99, negative from the end).    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
None == 99
Pk(i, n) == LET k == IF i < 0 THEN i + n ELSE i IN IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
Lo(i, n) == IF i = None THEN 0 ELSE Pk(i, n)
Hi(i, n) == IF i = None THEN n ELSE Pk(i, n)
Slice(s, i, j) == SubSeq(s, Lo(i, Len(s)) + 1, Hi(j, Len(s)))
\* the string of a chain of slices
RECURSIVE View(_, _)
View(s, ch) == IF ch = <<>> THEN s ELSE View(Slice(s, ch[1][1], ch[1][2]), Tail(ch))
\* sub occurs in s at offset k (from 0)
Occ(s, sub, k) == k + Len(sub) <= Len(s) /\ SubSeq(s, k+1, k + Len(sub)) = sub
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Occs(s, sub, i, j) == {k \in Lo(i, Len(s))..(Hi(j, Len(s)) - Len(sub)) : Occ(s, sub, k)}
Find(s, sub, i, j) == LET o == Occs(s, sub, i, j) IN IF o = {} THEN -1 ELSE Min(o)
RFind(s, sub, i, j) == LET o == Occs(s, sub, i, j) IN IF o = {} THEN -1 ELSE Max(o)
RECURSIVE CountFrom(_, _, _, _)
CountFrom(s, sub, k, hi) == LET o == {x \in k..(hi - Len(sub)) : Occ(s, sub, x)}
    IN IF o = {} THEN 0 ELSE 1 + CountFrom(s, sub, Min(o) + (IF sub = <<>> THEN 1 ELSE Len(sub)), hi)
Count(s, sub, i, j) == CountFrom(s, sub, Lo(i, Len(s)), Hi(j, Len(s)))
StartsWith(s, p, i, j) == LET k == Lo(i, Len(s)) IN k + Len(p) <= Hi(j, Len(s)) /\ Occ(s, p, k)
EndsWith(s, p, i, j) == LET k == Hi(j, Len(s)) - Len(p) IN k >= Lo(i, Len(s)) /\ Occ(s, p, k)
RECURSIVE Split(_, _)
Split(s, sep) == LET k == Find(s, sep, None, None)
    IN IF k < 0 THEN <<s>> ELSE <<SubSeq(s, 1, k)>> \o Split(SubSeq(s, k + Len(sep) + 1, Len(s)), sep)
Blank == {" ", "\n", "\t", "\r"}
RECURSIVE Lead(_, _)
Lead(s, C) == IF s # <<>> /\ Head(s) \in C THEN Lead(Tail(s), C) ELSE s
RECURSIVE Trail(_, _)
Trail(s, C) == IF s # <<>> /\ s[Len(s)] \in C THEN Trail(SubSeq(s, 1, Len(s)-1), C) ELSE s
\* splitting at any whitespace
RECURSIVE Words(_)
Words(s) == LET t == Lead(s, Blank)
                E == {k \in 1..Len(t) : t[k] \in Blank}
            IN IF t = <<>> THEN <<>>
               ELSE IF E = {} THEN <<t>>
               ELSE <<SubSeq(t, 1, Min(E)-1)>> \o Words(SubSeq(t, Min(E), Len(t)))
RECURSIVE Join(_, _)
Join(ws, by) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o by \o Join(Tail(ws), by)
Replace(s, old, new) == Join(Split(s, old), new)
(* regular expressions: a literal (k = "lit"), one or more (k = "plus") or any *)
(* number ("star") of the characters C                                         *)
RECURSIVE Run(_, _, _, _)
Run(s, C, k, hi) == IF k < hi /\ (\E c \in 1..Len(C) : C[c] = s[k+1]) THEN Run(s, C, k+1, hi) ELSE k
\* end of the match at offset k, -1 if there is none
MatchAt(s, rx, k, hi) == CASE rx.k = "lit" -> IF Occ(s, rx.c, k) /\ k + Len(rx.c) <= hi THEN k + Len(rx.c) ELSE -1
    [] rx.k = "plus" -> IF Run(s, rx.c, k, hi) > k THEN Run(s, rx.c, k, hi) ELSE -1
    [] rx.k = "star" -> Run(s, rx.c, k, hi)
Search(s, rx, lo, hi) == LET o == {k \in lo..hi : MatchAt(s, rx, k, hi) >= 0}
    IN IF o = {} THEN <<-1, -1>> ELSE <<Min(o), MatchAt(s, rx, Min(o), hi)>>
\* all matches; an empty match does not directly repeat the end of an empty match (Python >= 3.7)
RECURSIVE AllMatches(_, _, _, _)
AllMatches(s, rx, k, must) ==   \* must: a match at k has to be non-empty
    LET good(x) == LET e == MatchAt(s, rx, x, Len(s)) IN e >= 0 /\ ~(must /\ x = k /\ e = x)
        o == {x \in k..Len(s) : good(x)}
    IN IF o = {} THEN <<>>
       ELSE LET m == Min(o)
                e == MatchAt(s, rx, m, Len(s))
            IN <<<<m, e>>>> \o AllMatches(s, rx, e, e = m)
\* where search() starts and ends: bounds are clipped to the view
Clip(i, n) == IF i < 0 THEN 0 ELSE IF i > n THEN n ELSE i
=============================================================================
