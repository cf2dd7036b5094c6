------------------------------- MODULE Preproc ------------------------------
(* Preprocessing.  A file is a sequence of items: text, comments and includes. *)
(* What a preprocessor yields is a text together with the origin (file, place) *)
(* of each of its places, the place behind its last character included.        *)
(* Expand gives the text of a file with all includes replaced; Stage applies   *)
(* one further preprocessor (inserting tokens, leaving out text) to a text     *)
(* with origins.  SegMap builds the very compact map that a program keeps      *)
(* instead - borders, offsets, files - and MapAgrees says that looking up in   *)
(* it yields the same origins.                                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
NL == "\n"
RECURSIVE Show(_)
Show(p) == IF p = <<>> THEN "" ELSE IF Len(p) = 1 THEN p[1] ELSE p[1] \o "/" \o Show(Tail(p))
\* "a/../b", "./b" name the same file as "b"
RECURSIVE Norm(_, _)
Norm(done, p) == IF p = <<>> THEN done
    ELSE IF Head(p) = "." THEN Norm(done, Tail(p))
    ELSE IF Head(p) = ".." /\ done # <<>> /\ done[Len(done)] # ".." THEN Norm(SubSeq(done, 1, Len(done)-1), Tail(p))
    ELSE Norm(Append(done, Head(p)), Tail(p))
Real(p) == Show(Norm(<<>>, p))
Dir(p) == SubSeq(p, 1, Len(p)-1)
RECURSIVE Text(_)
Text(items) == IF items = <<>> THEN <<>> ELSE Head(items).s \o Text(Tail(items))
At(s, file, from) == [k \in 1..Len(s) |-> [c |-> s[k], f |-> file, p |-> from + k - 1]]
\* disk: real name -> items.  once: a file is read only the first time it is included
RECURSIVE Expand(_, _, _, _, _, _, _)
Expand(disk, path, items, k, from, stack, st) ==
    IF k > Len(items) \/ st.err # "" THEN st
    ELSE LET it == items[k]
             next == from + Len(it.s)
         IN IF it.k # "i" THEN Expand(disk, path, items, k+1, next, stack, [st EXCEPT !.o = @ \o At(it.s, Show(path), from)])
            ELSE LET target == Dir(path) \o it.n
                     again == st.once /\ Real(target) \in st.seen
                     inner == IF again THEN <<>> ELSE disk[Real(target)]
                 IN IF Real(target) \notin DOMAIN disk THEN [st EXCEPT !.err = "missing"]
                    ELSE IF Real(target) \in stack THEN [st EXCEPT !.err = "circular"]
                    ELSE Expand(disk, path, items, k+1, next, stack,
                                Expand(disk, target, inner, 1, 0, stack \cup {Real(target)},
                                       [st EXCEPT !.seen = @ \cup {Real(target)}]))
Included(disk, path, once) ==
    LET items == disk[Real(path)]
        st == Expand(disk, path, items, 1, 0, {Real(path)}, [err |-> "", o |-> <<>>, seen |-> {}, once |-> once])
    IN [err |-> st.err, o |-> st.o, end |-> [f |-> Show(path), p |-> Len(Text(items))]]
Plain(disk, path) == LET s == Text(disk[Real(path)])
    IN [err |-> "", o |-> At(s, Show(path), 0), end |-> [f |-> Show(path), p |-> Len(s)]]

\* further stages: d is [err, o, end]
Place(d, p) == IF p < Len(d.o) THEN [f |-> d.o[p+1].f, p |-> d.o[p+1].p] ELSE d.end
Mark(c, place) == [c |-> c, f |-> place.f, p |-> place.p]
BEG == "<"   \* how records show the three control characters
DEL == "|"
END == ">"
\* tokens: sequence of [at, len, name]
RECURSIVE Tokens(_, _, _, _)
Tokens(d, toks, k, from) ==
    IF k > Len(toks) THEN SubSeq(d.o, from + 1, Len(d.o))
    ELSE LET t == toks[k]
             pre == <<BEG>> \o t.name \o <<DEL>>
         IN SubSeq(d.o, from + 1, t.at)
            \o [j \in 1..Len(pre) |-> Mark(pre[j], Place(d, t.at))]
            \o SubSeq(d.o, t.at + 1, t.at + t.len)
            \o <<Mark(END, Place(d, t.at + t.len))>>
            \o Tokens(d, toks, k+1, t.at + t.len)
Keeps(s, p) == \A j \in 1..Len(s.cut) : ~(s.cut[j].at < p /\ p <= s.cut[j].at + s.cut[j].len)
RECURSIVE Kept(_, _, _)
Kept(d, s, p) == IF p > Len(d.o) THEN <<>> ELSE (IF Keeps(s, p) THEN <<d.o[p]>> ELSE <<>>) \o Kept(d, s, p+1)
Apply(d, s) == CASE s.k = "nil" -> d
    [] s.k = "tok" -> [d EXCEPT !.o = Tokens(d, s.toks, 1, 0)]
    [] s.k = "del" -> [d EXCEPT !.o = Kept(d, s, 1)]
Chars(d) == [k \in 1..Len(d.o) |-> d.o[k].c]
Origins(d) == [k \in 1..Len(d.o) + 1 |-> LET q == Place(d, k-1) IN <<q.f, q.p>>]
LineCol(t, p) == LET B == {k \in 1..p : t[k] = NL}
                     last == IF B = {} THEN 0 ELSE CHOOSE x \in B : \A y \in B : y <= x
                 IN <<Cardinality(B) + 1, p - last + 1>>

(* the compact map: segs is a sequence of [b, off, f], b increasing; a place p belongs to the last segment that begins at or before p *)

Shift(segs, n) == [k \in 1..Len(segs) |-> [b |-> segs[k].b + n, off |-> segs[k].off - n, f |-> segs[k].f]]
\* build: items of one file, `out` characters written so far of it, `at` read so far
RECURSIVE Build(_, _, _, _, _, _, _)
Build(disk, path, items, k, at, out, segs) ==
    IF k > Len(items) THEN [segs |-> segs, len |-> out]
    ELSE LET it == items[k]
         IN IF it.k # "i" THEN Build(disk, path, items, k+1, at + Len(it.s), out + Len(it.s), segs)
            ELSE LET target == Dir(path) \o it.n
                     inner == Build(disk, target, disk[Real(target)], 1, 0, 0, <<[b |-> 0, off |-> 0, f |-> Show(target)]>>)
                     head == IF segs[Len(segs)].b = out THEN SubSeq(segs, 1, Len(segs)-1) ELSE segs  \* nothing of the file itself since the last border
                     body == SelectSeq(Shift(inner.segs, out), LAMBDA s : s.b < out + inner.len)
                     back == out + inner.len
                 IN Build(disk, path, items, k+1, at + Len(it.s), back,
                          head \o body \o <<[b |-> back, off |-> at + Len(it.s) - back, f |-> Show(path)]>>)
SegMap(disk, path) == Build(disk, path, disk[Real(path)], 1, 0, 0, <<[b |-> 0, off |-> 0, f |-> Show(path)]>>)
Lookup(segs, p) == LET k == CHOOSE k \in 1..Len(segs) : segs[k].b <= p /\ \A j \in (k+1)..Len(segs) : segs[j].b > p
                   IN <<segs[k].f, p + segs[k].off>>
MapAgrees(disk, path) == LET d == Included(disk, path, FALSE)
                             m == SegMap(disk, path)
                         IN d.err = "" => /\ m.len = Len(d.o)
                                          /\ \A p \in 0..Len(d.o) : Lookup(m.segs, p) = Origins(d)[p+1]
\* each character of the result is the character at its origin
Faithful(disk, path) == LET d == Included(disk, path, FALSE)
                        IN d.err = "" => \A k \in 1..Len(d.o) : Text(disk[d.o[k].f])[d.o[k].p + 1] = d.o[k].c
\* including terminates: circles are found
Acyclic(disk) == \E rank \in [DOMAIN disk -> 0..Cardinality(DOMAIN disk)] :
    \A f \in DOMAIN disk : \A k \in 1..Len(disk[f]) : disk[f][k].k = "i" /\ Show(disk[f][k].n) \in DOMAIN disk => rank[Show(disk[f][k].n)] < rank[f]
ReachErr(disk, path) == Included(disk, path, FALSE).err
=============================================================================
