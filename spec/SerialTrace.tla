---------------------------- MODULE SerialTrace -----------------------------
(* Judges recorded serializations and readings of the real code.              *)
EXTENDS Serial, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
NoPos(t) == ToSxpr(t, FALSE)
Verdict(rec) ==
    IF rec.exc # "" THEN {"exception " \o rec.exc}
    ELSE CASE rec.kind = "sxpr" ->      \* written and read back
           LET want == ToSxpr(rec.t, rec.pos)
           IN (IF ReadSxpr(rec.text) # want THEN {"text-denotes-other-tree"} ELSE {})
              \cup (IF rec.back # want THEN {"read-back-differs"} ELSE {})
              \cup (IF rec.back2 # want THEN {"deserialize"} ELSE {})
              \cup (IF rec.oneline /\ HasLF(rec.text) THEN {"not-flat"} ELSE {})
         [] rec.kind = "sxpr-read" ->   \* any layout
              (IF rec.back # ReadSxpr(rec.text) THEN {"read"} ELSE {})
              \cup (IF rec.back2 # ReadSxpr(rec.text) THEN {"deserialize"} ELSE {})
              \cup (IF ReadSxpr(rec.flat) # ReadSxpr(rec.text) THEN {"flatten"} ELSE {})
         [] rec.kind = "xml" ->
           LET want == ToXml(rec.t, rec.strtags, rec.pos)
           IN (IF ReadXml(rec.text) # want THEN {"text-denotes-other-tree"} ELSE {})
              \cup (IF rec.back # want THEN {"read-back-differs"} ELSE {})
              \cup (IF rec.back2 # want THEN {"deserialize"} ELSE {})
         [] rec.kind = "xml-read" ->
              (IF rec.back # ReadXml(rec.text) THEN {"read"} ELSE {})
              \cup (IF rec.back2 # ReadXml(rec.text) THEN {"deserialize"} ELSE {})
         [] rec.kind = "json" ->
           LET want == ToSxpr(rec.t, rec.pos)
           IN (IF (IF rec.dict THEN ReadDict(rec.json.l[1][1], rec.json.l[1][2]) ELSE ReadJson(rec.json)) # want
               THEN {"text-denotes-other-tree"} ELSE {})
              \cup (IF rec.back # want THEN {"read-back-differs"} ELSE {})
              \cup (IF rec.back2 # want THEN {"deserialize"} ELSE {})
         [] rec.kind = "etree" ->
              IF rec.back # NoPos(rec.t) THEN {"etree"} ELSE {}
Want(rec) == CASE rec.kind \in {"sxpr", "json"} -> ToSxpr(rec.t, rec.pos)
               [] rec.kind = "xml" -> ToXml(rec.t, rec.strtags, rec.pos)
               [] rec.kind = "sxpr-read" -> ReadSxpr(rec.text)
               [] rec.kind = "xml-read" -> ReadXml(rec.text)
               [] OTHER -> NoPos(rec.t)
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET b == Verdict(Trace[l+1])
            IN b = {} \/ PrintT(<<"BAD", l+1, b, ToJson(IF Trace[l+1].exc # "" THEN <<>> ELSE Want(Trace[l+1]))>>)
=============================================================================
