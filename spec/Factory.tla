------------------------------ MODULE Factory -------------------------------
(* Thread-local factories: state is the table of instances (thread, factory);  *)
(* an instance is made at the first call and stays until the thread ends.      *)
(* Each call is one atomic step.                                               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Facts, MaxObj
None == 0
\* st: [inst : <<t, f>> -> object or None, made : all objects so far, modes : <<t, f>> -> flavour]
Call(st, t, f, mode, raises, new) ==     \* new: the object the constructor yields if it runs
    IF st.inst[t, f] # None /\ st.modes[t, f] = mode THEN [st |-> st, r |-> st.inst[t, f], ran |-> 0]
    ELSE IF raises THEN [st |-> st, r |-> None, ran |-> 1]
    ELSE [st |-> [st EXCEPT !.inst[t, f] = new, !.modes[t, f] = mode, !.made = @ \cup {new}], r |-> new, ran |-> 1]
Die(st, t) == [st EXCEPT !.inst = [x \in DOMAIN @ |-> IF x[1] = t THEN None ELSE @[x]]]
Drop(st, f) == [st EXCEPT !.inst = [x \in DOMAIN @ |-> IF x[2] = f THEN None ELSE @[x]]]
Start(T, F) == [inst |-> [x \in T \X F |-> None], modes |-> [x \in T \X F |-> ""], made |-> {}]

(* --- the design                                                              *)
VARIABLES s, got       \* got: history variable: <<t, f>> -> objects returned since the thread began
vars == <<s, got>>
Init == s = Start(Threads, Facts) /\ got = [x \in Threads \X Facts |-> {}]
Next == \E t \in Threads :
    \/ \E f \in Facts, raises \in BOOLEAN :
         LET x == Call(s, t, f, "", raises, Cardinality(s.made) + 1)
         IN /\ x.r <= MaxObj
            /\ s' = x.st /\ got' = [got EXCEPT ![t, f] = IF x.r = None THEN @ ELSE @ \cup {x.r}]
    \/ s' = Die(s, t) /\ got' = [x \in DOMAIN got |-> IF x[1] = t THEN {} ELSE got[x]]
OnePerThread == \A x \in DOMAIN got : Cardinality(got[x]) <= 1
Disjoint == \A x, y \in DOMAIN got : x # y => got[x] \cap got[y] = {}
Kept == \A x \in DOMAIN got : got[x] # {} => got[x] = {s.inst[x]}
=============================================================================
