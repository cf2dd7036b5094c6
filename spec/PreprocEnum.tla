---------------------------- MODULE PreprocEnum ------------------------------
(* All small include structures over three files.                              *)
EXTENDS Preproc
CONSTANT MaxItems
VARIABLE disk
T == [k |-> "t", s |-> <<"x">>, n |-> <<"-">>]
I(f) == [k |-> "i", s |-> <<"#", f>>, n |-> <<f>>]
Items == {T, I("b"), I("c")}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Main == Seqs(Items, MaxItems)
B == Seqs({T, I("c"), I("a"), I("z")}, 2)
C == Seqs({T, I("b")}, 2)
Init == \E m \in Main, b \in B, c \in C : disk = [f \in {"a", "b", "c"} |-> IF f = "a" THEN m ELSE IF f = "b" THEN b ELSE c]
Next == UNCHANGED disk
Agrees == MapAgrees(disk, <<"a">>) 
Faith == Faithful(disk, <<"a">>)
\* without circles and missing files nothing is reported
Clean == (Acyclic(disk) /\ (\A f \in DOMAIN disk : \A k \in 1..Len(disk[f]) : disk[f][k].k = "i" => Show(disk[f][k].n) \in DOMAIN disk))
         => ReachErr(disk, <<"a">>) = ""
=============================================================================
