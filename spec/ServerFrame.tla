------------------------------ MODULE ServerFrame ------------------------------
(* How the server cuts the stream into messages.  Messages have a header of HEAD *)
(* bytes (the length is known when all of them are there) and a body; the stream *)
(* arrives in chunks of any size.  The receive loop is modelled with offsets:    *)
(* data = stream[from..to), buffer = stream[to..got), avail the bytes that have  *)
(* arrived, but have not been read yet.                                          *)
EXTENDS Naturals, Sequences
CONSTANTS Bodies, HEAD, MaxMessages
VARIABLES msgs, avail, got, from, to, len, k, out
vars == <<msgs, avail, got, from, to, len, k, out>>
None == 99
RECURSIVE Total(_)
Total(ms) == IF ms = <<>> THEN 0 ELSE HEAD + Head(ms) + Total(Tail(ms))
RECURSIVE Start(_, _)
\* number of the message that the header at offset o belongs to
Start(ms, o) == IF o = 0 THEN 1 ELSE 1 + Start(Tail(ms), o - HEAD - Head(ms))
Init == /\ msgs \in UNION {[1..n -> Bodies] : n \in 1..MaxMessages}
        /\ avail = 0 /\ got = 0 /\ from = 0 /\ to = 0 /\ len = None /\ k = 0 /\ out = <<>>
\* bytes arrive
Arrive == \E n \in 1..(Total(msgs) - avail) : avail' = avail + n /\ UNCHANGED <<msgs, got, from, to, len, k, out>>
Complete == len # None /\ to - from >= len + k
\* data grows: by the buffer first, then by what can be read (at most the length, if it is known)
Grow == /\ ~Complete
        /\ \E t \in IF got > to THEN {got} ELSE {x \in (to+1)..avail : len = None \/ len = 0 \/ x - to <= len} :
             LET head == t - from >= HEAD
                 size == IF len # None /\ k > 0 THEN len ELSE IF head THEN msgs[Start(msgs, from)] ELSE None
                 kk == IF size = None THEN 0 ELSE HEAD
                 cut == IF size # None /\ t - from > kk + size THEN from + kk + size ELSE t
             IN len' = size /\ k' = kk /\ to' = cut /\ got' = IF t > got THEN t ELSE got
        /\ UNCHANGED <<msgs, avail, from, out>>
Deliver == /\ Complete
           /\ out' = Append(out, <<from + k, to>>)
           /\ from' = to /\ len' = None /\ k' = 0 /\ UNCHANGED <<msgs, avail, got, to>>
Next == Arrive \/ Grow \/ Deliver
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Expected(_, _, _)
Expected(ms, o, n) == IF n = 0 THEN <<>> ELSE <<<<o + HEAD, o + HEAD + Head(ms)>>>> \o Expected(Tail(ms), o + HEAD + Head(ms), n - 1)
\* exactly the bodies of the messages are delivered, in order ...
Framed == out = Expected(msgs, 0, Len(out))
\* ... and all of them
Delivered == <>(Len(out) = Len(msgs))
===============================================================================
