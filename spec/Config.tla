------------------------------- MODULE Config -------------------------------
(* Configuration values: presets shared by all threads, values per thread.     *)
(* A thread's dictionary is filled from the presets when a key is asked for    *)
(* that it does not contain; from then on the thread keeps these values.       *)
(* Every call is one atomic step with a result.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Keys, Values
No == "-"                         \* no value
\* --- validation: key "r" has a range (0..10), key "s" a set of values, others are free
Kind(v) == CASE v \in {"i0", "i5", "i10", "i11", "i-1", "f2.5"} -> "num"
             [] v \in {"sx", "sy", "sz"} -> "str"
             [] OTHER -> "list"   \* lists "l", "lx", "lxy", "lxz"
Invalid(k, v) == CASE k = "r" -> IF Kind(v) # "num" THEN "TypeError"
                                 ELSE IF v \in {"i11", "i-1"} THEN "ValueError" ELSE ""
                   [] k = "s" -> IF v \in {"sx", "sy", "l", "lx", "lxy"} THEN "" ELSE "ValueError"
                   [] OTHER -> ""
\* --- state: [preset : Keys -> value, cfg : Threads -> (Keys -> value), open : are presets accessible]
Empty == [k \in Keys |-> No]
State0 == [preset |-> Empty, cfg |-> [t \in Threads |-> Empty], open |-> FALSE]
Filled(s, t, ks) == [s EXCEPT !.cfg[t] = [k \in Keys |-> IF @[k] = No /\ k \in ks THEN s.preset[k] ELSE @[k]]]
R(s, r) == [s |-> s, r |-> r]
Get(s, t, k, dflt) ==
    IF s.cfg[t][k] # No THEN R(s, s.cfg[t][k])
    ELSE LET n == Filled(s, t, Keys)
         IN R(n, IF n.cfg[t][k] # No THEN n.cfg[t][k] ELSE IF dflt = No THEN "KeyError" ELSE dflt)
Set(s, t, k, v, new) ==
    IF ~new /\ s.preset[k] = No /\ s.cfg[t][k] = No THEN R(s, "ValueError")
    ELSE IF Invalid(k, v) # "" THEN R(s, Invalid(k, v))
    ELSE R([s EXCEPT !.cfg[t][k] = v], "ok")
Add(s, t, k, v) == R([s EXCEPT !.cfg[t][k] = v], "ok")
Reset(s, t) == R([s EXCEPT !.cfg[t] = Empty], "ok")
Access(s) == IF s.open THEN R(s, "AssertionError") ELSE R([s EXCEPT !.open = TRUE], "ok")
Finalize(s) == IF s.open THEN R([s EXCEPT !.open = FALSE], "ok") ELSE R(s, "AssertionError")
GetPreset(s, k) == R(s, IF ~s.open THEN "AssertionError" ELSE IF s.preset[k] = No THEN "KeyError" ELSE s.preset[k])
SetPreset(s, t, k, v, new) ==
    IF ~s.open THEN R(s, "AssertionError")
    ELSE IF ~new /\ s.preset[k] = No THEN R(s, "ValueError")
    ELSE IF Invalid(k, v) # "" THEN R(s, Invalid(k, v))
    ELSE R([s EXCEPT !.preset[k] = v, !.cfg[t][k] = v], "ok")
\* all values with keys in ks (the keys a pattern matches)
GetAll(s, t, ks) == LET n == Filled(s, t, ks) IN R(n, [k \in {x \in ks : n.cfg[t][x] # No} |-> n.cfg[t][k]])
\* a section of configuration data (several presets at once): an entry that is invalid or cannot be
\* evaluated ("bad") ends the section; the presets are not open afterwards
RECURSIVE Ingest(_, _, _)
Ingest(s, t, kvs) ==
    IF kvs = <<>> THEN R(s, "ok")
    ELSE IF kvs[1][2] = "bad" THEN R(s, "NameError")
    ELSE LET x == SetPreset([s EXCEPT !.open = TRUE], t, kvs[1][1], kvs[1][2], TRUE)
         IN IF x.r = "ok" THEN Ingest([x.s EXCEPT !.open = FALSE], t, Tail(kvs)) ELSE R(s, "ValueError")
IngestAll(s, t, kvs) == IF s.open THEN R(s, "AssertionError") ELSE Ingest(s, t, kvs)

(* --- the design: all interleavings of calls                                  *)
VARIABLES st, last       \* last: <<thread, key, value>> of successful Set/SetPreset steps per thread and key
Init == st = State0 /\ last = [t \in Threads |-> Empty]
Do(x, l) == st' = x.s /\ last' = l
Next == \E t \in Threads :
    \/ \E k \in Keys : Do(Get(st, t, k, No), last)
    \/ Do(GetAll(st, t, Keys), last)
    \/ \E k \in Keys, v \in Values, new \in BOOLEAN :
         LET x == Set(st, t, k, v, new) IN Do(x, IF x.r = "ok" THEN [last EXCEPT ![t][k] = v] ELSE last)
    \/ \E k \in Keys, v \in Values, new \in BOOLEAN :
         LET x == SetPreset(st, t, k, v, new) IN Do(x, IF x.r = "ok" THEN [last EXCEPT ![t][k] = v] ELSE last)
    \/ Do(Access(st), last)
    \/ Do(Finalize(st), last)
Vars == <<st, last>>
\* a thread reads the value that was last set in it
OwnValue == \A t \in Threads, k \in Keys : last[t][k] # No => Get(st, t, k, No).r = last[t][k]
\* values are never invalid
Valid == \A k \in Keys : /\ st.preset[k] # No => Invalid(k, st.preset[k]) = ""
                         /\ \A t \in Threads : st.cfg[t][k] # No => Invalid(k, st.cfg[t][k]) = ""
\* a step changes the values of one thread only, presets only while they are open
Isolation == [][/\ \A t, u \in Threads : t # u => st'.cfg[t] = st.cfg[t] \/ st'.cfg[u] = st.cfg[u]
                /\ st'.preset # st.preset => st.open /\ st'.open
                /\ \A t \in Threads, k \in Keys : \* read values are stable
                     st.cfg[t][k] # No /\ st'.cfg[t][k] # st.cfg[t][k] => last'[t][k] = st'.cfg[t][k]]_Vars
\* a thread without any values sees the presets
FreshThread == \A t \in Threads, k \in Keys : st.cfg[t] = Empty /\ st.preset[k] # No => Get(st, t, k, No).r = st.preset[k]
=============================================================================
