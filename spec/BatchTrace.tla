----------------------------- MODULE BatchTrace -----------------------------
(* A record: files (see Batch), T targets, ser serializations, stop (number   *)
(* of the file after which cancelling was asked for; 0: never), and observed: *)
(* ret <<number of file, kind of message file>>.., log likewise, out per file *)
(* <<stage, extension, root name, words>>.., msgs per file the lines of the   *)
(* message file <<line, column, kind, text>>.., late (number of files still   *)
(* worked on after the end)                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS N, Workers
VARIABLES worst, state, written, i, ret, log, cancel, phase, n
B == INSTANCE Batch
Trace == ndJsonDeserialize(IOEnv.TRACE)
Range(q) == {q[j] : j \in 1..Len(q)}
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Words(f) == [j \in 1..Len(f.w) |-> f.w[j].t]
Bad(r) == LET T == Range(r.T)
              fs == r.files
              kind(k) == B!Log(B!Worst(fs[k], T))
              last == IF r.stop = 0 THEN Len(fs) ELSE r.stop
              done == [k \in 1..last |-> k]
              some == SelectSeq(done, LAMBDA k : kind(k) # "")
              filesBad(k) ==
                 LET o == r.out[k]
                     ms == r.msgs[k]
                     \* the text of a parsing error is not judged
                     m == [j \in 1..Len(ms) |-> IF fs[k].el = ms[j][1] /\ fs[k].ec = ms[j][2] /\ ms[j][3] = "err"
                                                THEN <<ms[j][1], ms[j][2], "err", "?">> ELSE <<ms[j][1], ms[j][2], ms[j][3], ms[j][4]>>]
                     names == {<<x[1], x[2]>> : x \in Range(o)}
                     Rs == B!Runs(fs[k], T)
                     Ok == {R \in Rs : Range(m) = B!Msgs(fs[k], R)}
                 IN (IF Ok = {} \/ Len(m) # Cardinality(Range(m)) THEN {"messages"} ELSE {})
                    \cup (IF ~(\E R \in (IF Ok = {} THEN Rs ELSE Ok) : names = B!Names(fs[k], T, R, r.ser)) \/ Len(o) # Cardinality(Range(o))
                          THEN {"files-written"} ELSE {})
                    \cup (IF fs[k].el = 0 /\ \E x \in Range(o) : x[1] \in B!Trees
                                /\ (x[3] # B!Root[x[1]] \/ x[4] # Words(fs[k])) THEN {"content"} ELSE {})
                    \cup (IF fs[k].el = 0 /\ \E x \in Range(o) : x[1] \notin B!Trees
                                /\ (x[3] # x[1] \/ x[4] # Words(fs[k])) THEN {"content"} ELSE {})
                    \cup (IF \E a, b \in 1..Len(m) : a < b /\ ~Lex(m[a], m[b]) THEN {"message-order"} ELSE {})
                    \cup (IF r.kinds[k] # (IF kind(k) = "" THEN <<>> ELSE <<kind(k)>>) THEN {"message-file"} ELSE {})
          IN (IF r.ret # [j \in 1..Len(some) |-> <<some[j], kind(some[j])>>] THEN {"returned"} ELSE {})
             \cup (IF r.log # [k \in 1..last |-> <<k, kind(k)>>] THEN {"log"} ELSE {})
             \cup (IF \/ (r.mode = "singlethread" /\ r.where # "caller") \/ (r.mode = "multithreading" /\ r.where # "thread")
                       \/ (r.mode = "multicore" /\ r.where # "process") THEN {"where"} ELSE {})
             \cup (IF r.late # 0 THEN {"still-running"} ELSE {})
             \cup UNION {filesBad(k) : k \in 1..last}
TInit == /\ n = 1 /\ worst = 0 /\ state = 0 /\ written = 0 /\ i = 0 /\ ret = 0 /\ log = 0 /\ cancel = 0 /\ phase = 0
TNext == /\ n <= Len(Trace)
         /\ LET b == Bad(Trace[n]) IN IF b = {} THEN TRUE ELSE PrintT(<<"BAD", n, b>>)
         /\ n' = n + 1 /\ UNCHANGED <<worst, state, written, i, ret, log, cancel, phase>>
=============================================================================
