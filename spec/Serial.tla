------------------------------- MODULE Serial --------------------------------
(* What the serialized forms of a tree denote (C12): readers of S-expressions, *)
(* SXML, XML and JSON, written independently of the code, over sequences of    *)
(* characters.  A tree is [n: name, t: text, c: children, a: attributes in     *)
(* order, p: position or -1].                                                  *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE CatN(_, _)
CatN(s, k) == IF k = 0 THEN <<>> ELSE CatN(s, k-1) \o s[k]
Cat(s) == CatN(s, Len(s))
Leaf(n, t, a, p) == [n |-> n, t |-> t, c |-> <<>>, a |-> a, p |-> p]
WS == {" ", "\n", "\t"}
At(s, i) == IF i <= Len(s) THEN s[i] ELSE ""
Is(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
RECURSIVE Skip(_, _)
Skip(s, i) == IF At(s, i) \in WS THEN Skip(s, i+1) ELSE i
\* index of the first character from i on that is in S (or behind the end)
RECURSIVE Until(_, _, _)
Until(s, i, S) == IF i > Len(s) \/ s[i] \in S THEN i ELSE Until(s, i+1, S)
\* index of the next occurrence of w (or behind the end)
RECURSIVE Find(_, _, _)
Find(s, i, w) == IF i > Len(s) \/ Is(s, i, w) THEN i ELSE Find(s, i+1, w)
Digit(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE NumN(_, _)
NumN(s, k) == IF k = 0 THEN 0 ELSE 10 * NumN(s, k-1) + Digit(s[k])
Num(s) == NumN(s, Len(s))
\* the last number in s
RECURSIVE LastNum(_, _)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LastNum(s, k) == IF s[k] \in Digits
                 THEN LET RECURSIVE B(_)
                          B(j) == IF j > 1 /\ s[j-1] \in Digits THEN B(j-1) ELSE j
                      IN Num(SubSeq(s, B(k), k))
                 ELSE LastNum(s, k-1)

(* --- S-expressions: "(" name attributes ( children | strings ) ")" --------- *)
Ends == WS \cup {"(", ")", "`", "\"", "'"}
Quotes == {"\"", "'"}
\* the string that starts at i: <<text, index behind it>>
Str(s, i) == LET q == s[i] IN
    IF Is(s, i, <<q, q, q>>) /\ Find(s, i+3, <<q, q, q>>) <= Len(s)
    THEN LET e == Find(s, i+3, <<q, q, q>>) IN <<SubSeq(s, i+3, e-1), e+3>>
    ELSE LET e == Until(s, i+1, {q}) IN <<SubSeq(s, i+1, e-1), e+1>>
\* strings of a leaf, joined by line-feeds; text without quotation marks goes up to the bracket
RECURSIVE Strs(_, _, _)
Strs(s, i, acc) == LET j == Skip(s, i) IN
    IF At(s, j) \in {")", ""} THEN <<acc, j>>
    ELSE IF s[j] \in Quotes THEN LET x == Str(s, j) IN Strs(s, x[2], Append(acc, x[1]))
    ELSE LET e == Until(s, j, {")"}) IN Strs(s, e, Append(acc, SubSeq(s, j, e-1)))
RECURSIVE Join(_)
Join(l) == IF l = <<>> THEN <<>> ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o <<"\n">> \o Join(Tail(l))
\* attributes: o is what opens one, "`(" or "("
RECURSIVE Attrs(_, _, _, _, _)
Attrs(s, i, o, a, p) == LET j == Skip(s, i) IN
    IF ~Is(s, j, o) THEN <<a, p, j>>
    ELSE LET k == Skip(s, j + Len(o))
             e == Until(s, k, Ends)
             name == SubSeq(s, k, e-1)
             v == Skip(s, e)
         IN IF At(s, v) \in Quotes /\ ~(o = <<"(">> /\ name = <<"p", "o", "s">>)
            THEN LET x == Str(s, v) IN Attrs(s, Skip(s, x[2]) + 1, o, Append(a, <<name, x[1]>>), p)
            ELSE LET z == Until(s, v, {")"}) IN Attrs(s, z + 1, o, a, LastNum(s, z - 1))
RECURSIVE SNode(_, _)
RECURSIVE SNodes(_, _, _)
SNodes(s, i, acc) == LET j == Skip(s, i) IN
    IF At(s, j) # "(" THEN <<acc, j>> ELSE LET x == SNode(s, j) IN SNodes(s, x[2], Append(acc, x[1]))
SNode(s, i) ==
    LET j == Skip(s, i+1)
        e == Until(s, j, Ends)
        k == Skip(s, e)
        sx == Is(s, k, <<"(", "@">>)
        at == IF sx THEN Attrs(s, k+2, <<"(">>, <<>>, -1) ELSE Attrs(s, k, <<"`", "(">>, <<>>, -1)
        b == IF sx THEN Skip(s, at[3] + 1) ELSE at[3]
    IN IF At(s, b) = "("
       THEN LET x == SNodes(s, b, <<>>)
            IN <<[n |-> SubSeq(s, j, e-1), t |-> <<>>, c |-> x[1], a |-> at[1], p |-> at[2]], x[2] + 1>>
       ELSE LET x == Strs(s, b, <<>>) IN <<Leaf(SubSeq(s, j, e-1), Join(x[1]), at[1], at[2]), x[2] + 1>>
ReadSxpr(s) == SNode(s, Skip(s, 1))[1]

(* --- XML without declarations and CDATA; entities remain as they are -------- *)
XEnds == WS \cup {">", "/", "="}
Blank(t) == \A i \in 1..Len(t) : t[i] \in WS
HasLF(t) == \E i \in 1..Len(t) : t[i] = "\n"
\* text between tags that only serves the layout
Layout(t) == t = <<>> \/ (Blank(t) /\ HasLF(t))
Str1(s, i) == LET e == Until(s, i+1, {s[i]}) IN <<SubSeq(s, i+1, e-1), e+1>>
RECURSIVE XAttrs(_, _, _, _)
XAttrs(s, i, a, p) == LET j == Skip(s, i) IN
    IF At(s, j) \in {">", "/", ""} THEN <<a, p, j>>
    ELSE LET e == Until(s, j, XEnds)
             x == Str1(s, Skip(s, Skip(s, e) + 1))
             name == SubSeq(s, j, e-1)
         IN IF name = <<"_", "p", "o", "s">> THEN XAttrs(s, x[2], a, Num(x[1]))
            ELSE XAttrs(s, x[2], Append(a, <<name, x[1]>>), p)
\* content: items are texts [x |-> TRUE, t] and elements [x |-> FALSE, e]
Text(t) == [x |-> TRUE, t |-> t, e |-> <<>>]
Elem(e) == [x |-> FALSE, t |-> <<>>, e |-> <<e>>]
TextName == <<":", "T", "e", "x", "t">>
\* what a sequence of items is read as: layout is dropped, a single text is the text of the element
Content(items, n, a, p) ==
    LET its == SelectSeq(items, LAMBDA y : ~(y.x /\ Layout(y.t)))
    IN IF its = <<>> THEN Leaf(n, <<>>, a, p)
       ELSE IF Len(its) = 1 /\ its[1].x THEN Leaf(n, its[1].t, a, p)
       ELSE [n |-> n, t |-> <<>>, a |-> a, p |-> p,
             c |-> [i \in 1..Len(its) |-> IF its[i].x THEN Leaf(TextName, its[i].t, <<>>, -1) ELSE its[i].e[1]]]
Restore(n) == IF Len(n) > 2 /\ SubSeq(n, Len(n)-1, Len(n)) = <<"_", "_">> THEN <<":">> \o SubSeq(n, 1, Len(n)-2) ELSE n
RECURSIVE XNode(_, _)
RECURSIVE XItems(_, _, _)
XItems(s, i, acc) ==
    IF i > Len(s) \/ Is(s, i, <<"<", "/">>) THEN <<acc, i>>
    ELSE IF Is(s, i, <<"<", "!", "-", "-">>) THEN XItems(s, Find(s, i, <<"-", "-", ">">>) + 3, acc)
    ELSE IF s[i] = "<" THEN LET x == XNode(s, i) IN XItems(s, x[2], Append(acc, Elem(x[1])))
    ELSE LET e == Until(s, i, {"<"}) IN XItems(s, e, Append(acc, Text(SubSeq(s, i, e-1))))
XNode(s, i) ==
    LET j == Skip(s, i+1)
        e == Until(s, j, XEnds)
        n == Restore(SubSeq(s, j, e-1))
        at == XAttrs(s, e, <<>>, -1)
    IN IF At(s, at[3]) = "/" THEN <<Leaf(n, <<>>, at[1], at[2]), at[3] + 2>>
       ELSE LET x == XItems(s, at[3] + 1, <<>>)
            IN <<Content(x[1], n, at[1], at[2]), Until(s, x[2], {">"}) + 1>>
ReadXml(s) == XNode(s, Skip(s, 1))[1]

(* what a tree turns into by being written as XML: markup characters become    *)
(* entity references, nodes with a name in strtags become plain text           *)
Amp == <<"&", "a", "m", "p", ";">>
Lt == <<"&", "l", "t", ";">>
Gt == <<"&", "g", "t", ";">>
\* is there a reference at i already?  word: the characters of references
Word(c) == c \notin {" ", "\"", "'", "\\", "(", ")", ";", "`", "#", "\n", "\t", "\r", "&", "<", ">", ".", ":", "-", "=", "/"}
RECURSIVE WordEnd(_, _)
WordEnd(s, i) == IF i <= Len(s) /\ Word(s[i]) THEN WordEnd(s, i+1) ELSE i
IsRef(s, i) == LET j == IF At(s, i+1) = "#" THEN i+2 ELSE i+1
                   e == WordEnd(s, j)
               IN e > j /\ At(s, e) = ";"
Esc(t) == Cat([i \in 1..Len(t) |-> CASE t[i] = "<" -> Lt [] t[i] = ">" -> Gt
                                     [] t[i] = "&" -> IF IsRef(t, i) THEN <<"&">> ELSE Amp
                                     [] OTHER -> <<t[i]>>])
IsText(t, strtags) == t.a = <<>> /\ t.c = <<>> /\ \E i \in 1..Len(strtags) : strtags[i] = t.n
\* adjacent texts become one
RECURSIVE Glue(_, _)
Glue(items, acc) == IF items = <<>> THEN acc
    ELSE IF Head(items).x /\ acc # <<>> /\ acc[Len(acc)].x
    THEN Glue(Tail(items), [acc EXCEPT ![Len(acc)] = Text(@.t \o Head(items).t)])
    ELSE Glue(Tail(items), Append(acc, Head(items)))
RECURSIVE ToXml(_, _, _)
ToXml(t, strtags, withpos) ==
    LET p == IF withpos THEN t.p ELSE -1
    IN IF t.c = <<>> THEN Content(<<Text(Esc(t.t))>>, t.n, t.a, p)
       ELSE Content(Glue([i \in 1..Len(t.c) |-> IF IsText(t.c[i], strtags) THEN Text(Esc(t.c[i].t))
                                                ELSE Elem(ToXml(t.c[i], strtags, withpos))], <<>>), t.n, t.a, p)
RECURSIVE ToSxpr(_, _)
ToSxpr(t, withpos) == [t EXCEPT !.p = IF withpos THEN t.p ELSE -1,
                                !.c = [i \in 1..Len(t.c) |-> ToSxpr(t.c[i], withpos)]]

(* --- JSON: values are [k |-> "s", s], [k |-> "i", i], [k |-> "l", l],         *)
(* [k |-> "o", l] (sequence of pairs <<key, value>>)                           *)
PairsToAttr(o) == [i \in 1..Len(o.l) |-> <<o.l[i][1], o.l[i][2].s>>]
RECURSIVE ReadJson(_)
ReadJson(v) ==
    LET body == v.l[2]
        ex(k) == SelectSeq(SubSeq(v.l, 3, Len(v.l)), LAMBDA y : y.k = k)
        p == IF ex("i") = <<>> THEN -1 ELSE ex("i")[1].i
        a == IF ex("o") = <<>> THEN <<>> ELSE PairsToAttr(ex("o")[1])
    IN IF body.k = "s" THEN Leaf(v.l[1].s, body.s, a, p)
       ELSE [n |-> v.l[1].s, t |-> <<>>, a |-> a, p |-> p, c |-> [i \in 1..Len(body.l) |-> ReadJson(body.l[i])]]
Uu(x) == x \in {<<"p", "o", "s", "_", "_">>, <<"c", "o", "n", "t", "e", "n", "t", "_", "_">>,
                <<"a", "t", "t", "r", "i", "b", "u", "t", "e", "s", "_", "_">>}
\* dictionary flavour: name n with value v
RECURSIVE ReadDict(_, _)
ReadDict(n, v) ==
    IF v.k = "s" THEN Leaf(n, v.s, <<>>, -1)
    ELSE LET prs == IF v.k = "o" THEN v.l ELSE [i \in 1..Len(v.l) |-> <<v.l[i].l[1].s, v.l[i].l[2]>>]
             Sel(w) == SelectSeq(prs, LAMBDA x : Len(x[1]) = Len(w) /\ x[1] = w)
             ps == Sel(<<"p", "o", "s", "_", "_">>)
             as == Sel(<<"a", "t", "t", "r", "i", "b", "u", "t", "e", "s", "_", "_">>)
             ct == Sel(<<"c", "o", "n", "t", "e", "n", "t", "_", "_">>)
             p == IF ps = <<>> THEN -1 ELSE Num(ps[1][2].s)
             a == IF as = <<>> THEN <<>> ELSE PairsToAttr(as[1][2])
             kids == SelectSeq(prs, LAMBDA x : ~Uu(x[1]))
         IN IF ct # <<>> THEN Leaf(n, ct[1][2].s, a, p)
            ELSE [n |-> n, t |-> <<>>, a |-> a, p |-> p, c |-> [i \in 1..Len(kids) |-> ReadDict(kids[i][1], kids[i][2])]]
=============================================================================
