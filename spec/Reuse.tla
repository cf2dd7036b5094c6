------------------------------- MODULE Reuse -------------------------------
(* Life of grammar objects: a class of grammars, up to Objs objects of that *)
(* class, each of which may be traced, used for parses from any start       *)
(* symbol, interrupted or cancelled in the middle of a parse.               *)
(*                                                                          *)
(* What an object remembers is deliberately unconstrained: `dirt` collects  *)
(* everything that happened to it.  The property is that outcomes do not    *)
(* depend on it: the outcome of a parse is Denote(start, text).             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils, FiniteSets

Objs == 1..2
Starts == 1..2       \* 1: the root symbol, 2: some other symbol
Texts == 1..2
MaxLen == atoi(IOEnv.MAXLEN)
Slices == atoi(IOEnv.SLICES)
Slice == atoi(IOEnv.SLICE)

VARIABLES objs,      \* object -> "absent" | [traced, dirt]
          hist       \* the operations performed so far
vars == <<objs, hist>>

Absent == [there |-> FALSE, traced |-> FALSE, dirt |-> <<>>]
Fresh == [there |-> TRUE, traced |-> FALSE, dirt |-> <<>>]
Denote(s, t) == <<s, t>>     \* the meaning of a parse, see module Peg

Op(name, k, s, t) == [op |-> name, k |-> k, s |-> s, t |-> t]
Do(o, rec) == /\ Len(hist) < MaxLen
              /\ hist' = Append(hist, o)
              /\ objs' = [objs EXCEPT ![o.k] = rec]

Init == objs = [k \in Objs |-> IF k = 1 THEN Fresh ELSE Absent] /\ hist = <<>>
New(k) == ~objs[k].there /\ Do(Op("new", k, 0, 0), Fresh)
Trace(k, on) == /\ objs[k].there /\ objs[k].traced # on
                /\ Do(Op(IF on THEN "trace" ELSE "untrace", k, 0, 0), [objs[k] EXCEPT !.traced = on])
\* a completed parse, one interrupted by an exception, one cancelled by the cancel query
Parse(k, s, t) == objs[k].there /\ Do(Op("parse", k, s, t), [objs[k] EXCEPT !.dirt = Append(@, <<s, t>>)])
Abort(k, s, t) == objs[k].there /\ Do(Op("abort", k, s, t), [objs[k] EXCEPT !.dirt = Append(@, <<s, t, "abort">>)])
Cancel(k, s, t) == objs[k].there /\ Do(Op("cancel", k, s, t), [objs[k] EXCEPT !.dirt = Append(@, <<s, t, "cancel">>)])
Next == \E k \in Objs :
          \/ New(k)
          \/ \E on \in BOOLEAN : Trace(k, on)
          \/ \E s \in Starts, t \in Texts : Parse(k, s, t) \/ Abort(k, s, t) \/ Cancel(k, s, t)

\* histories worth replaying end with a parse that something has preceded
Interesting == Len(hist) = MaxLen /\ hist[MaxLen].op = "parse"
Hash == LET h(o) == o.k * 7 + o.s * 3 + o.t * 11 + (CASE o.op = "parse" -> 1 [] o.op = "abort" -> 2 [] o.op = "cancel" -> 4
                         [] o.op = "new" -> 3 [] OTHER -> 5)
        IN IF Len(hist) >= 3 THEN h(hist[1]) + 13 * h(hist[2]) + 31 * h(hist[3]) ELSE 0
Emit == (Interesting /\ Hash % Slices = Slice) => PrintT(<<"GEN", ToJson(hist)>>)
\* outcomes are a function of start and text, whatever the dirt
Functional == \A i, j \in DOMAIN hist : hist[i].op = "parse" /\ hist[j].op = "parse"
                 /\ hist[i].s = hist[j].s /\ hist[i].t = hist[j].t => Denote(hist[i].s, hist[i].t) = Denote(hist[j].s, hist[j].t)
Spec == Init /\ [][Next]_vars
=============================================================================
