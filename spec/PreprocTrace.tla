---------------------------- MODULE PreprocTrace ----------------------------
EXTENDS Preproc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
RECURSIVE Stages(_, _, _)
\* what a stage did must be possible with the text it should have been given
Fits(d, s) == (\A j \in 1..Len(s.toks) : s.toks[j].at + s.toks[j].len <= Len(d.o))
              /\ (\A j \in 1..Len(s.cut) : s.cut[j].at + s.cut[j].len <= Len(d.o)) /\ (\A j \in 1..Len(s.errs) : s.errs[j] <= Len(d.o))
Stages(d, ss, k) == IF k > Len(ss) THEN <<d>> ELSE IF ~Fits(d, ss[k]) THEN <<d, [err |-> "misfit"]>> ELSE <<d>> \o Stages(Apply(d, ss[k]), ss, k+1)
Where(r, q) == <<q.f, q.p>> \o LineCol(Text(r.disk[r.real[q.f]]), q.p)
RECURSIVE Errs(_, _, _)
Errs(r, ds, k) == IF k > Len(r.stages) THEN <<>>
    ELSE [j \in 1..Len(r.stages[k].errs) |-> Where(r, Place(ds[k], r.stages[k].errs[j]))] \o Errs(r, ds, k+1)
\* what a parser sees: tokens and characters
RECURSIVE Parsed(_, _, _)
Parsed(d, k, marks) ==
    IF k > Len(d.o) THEN <<>>
    ELSE IF d.o[k].c # BEG THEN <<[node |-> <<"ch", <<d.o[k].c>>>>, at |-> k-1, mark |-> d.o[k].c = "!"]>> \o Parsed(d, k+1, marks)
    ELSE LET m == CHOOSE m \in k..Len(d.o) : d.o[m].c = DEL /\ \A x \in k..(m-1) : d.o[x].c # DEL
             e == CHOOSE e \in m..Len(d.o) : d.o[e].c = END /\ \A x \in m..(e-1) : d.o[x].c # END
             S(a, b) == [j \in 1..(b - a + 1) |-> d.o[a+j-1].c]
         IN <<[node |-> <<"tok", S(k+1, m-1) \o <<"=">> \o S(m+1, e-1)>>, at |-> k-1, mark |-> TRUE]>> \o Parsed(d, e+1, marks)
Expected(r) ==
    LET d0 == IF r.inc THEN Included(r.disk, r.path, r.once) ELSE Plain(r.disk, r.path)
    IN IF d0.err # "" THEN [err |-> d0.err]
       ELSE LET ds == Stages(d0, r.stages, 1)
                d == ds[Len(ds)]
            IN IF d.err # "" THEN [err |-> d.err]
               ELSE LET ps == Parsed(d, 1, TRUE)
                        ms == SelectSeq(ps, LAMBDA x : x.mark)
            IN [err |-> "", text |-> Chars(d), map |-> Origins(d), errs |-> Errs(r, ds, 1),
                nodes |-> IF r.parsed THEN [k \in 1..Len(ps) |-> ps[k].node] ELSE <<>>,
                marks |-> IF r.parsed THEN [k \in 1..Len(ms) |-> Where(r, Place(d, ms[k].at))] ELSE <<>>]
\* a map given by its segments [b, f, p]
ExpectedMap(r) == [k \in 1..r.len + 1 |->
    LET i == CHOOSE i \in 1..Len(r.segs) : r.segs[i].b <= k-1 /\ \A j \in (i+1)..Len(r.segs) : r.segs[j].b > k-1
    IN <<r.segs[i].f, r.segs[i].p + (k - 1 - r.segs[i].b)>>]
Ok(r) == r.nb = r.no /\ r.no = r.nf /\ r.nb >= 2 /\ r.bs[1] = 0 /\ \A k \in 1..Len(r.bs)-1 : r.bs[k] < r.bs[k+1]
Bad(r) == CASE r.kind = "run" -> LET x == Expected(r)
                                 IN IF x.err # "" THEN (IF r.out.err = x.err THEN <<>> ELSE <<"err", x>>)
                                    ELSE IF r.out.err # "" THEN <<"crash", x>>
                                    ELSE IF r.out.text # x.text THEN <<"text", x>>
                                    ELSE IF r.out.map # x.map THEN <<"map", x>>
                                    ELSE IF r.out.errs # x.errs THEN <<"errors", x>>
                                    ELSE IF r.out.nodes # x.nodes THEN <<"nodes", x>>
                                    ELSE IF r.out.marks # x.marks THEN <<"marks", x>>
                                    ELSE IF \E k \in 1..Len(r.out.texts) : ~r.out.texts[k] THEN <<"source", x>> ELSE <<>>
            [] r.kind = "segs" -> IF r.out = ExpectedMap(r) THEN <<>> ELSE <<"segs", ExpectedMap(r)>>
            [] r.kind = "valid" -> IF r.out = Ok(r) THEN <<>> ELSE <<"valid", Ok(r)>>
            [] r.kind = "strip" -> IF r.out = r.plain THEN <<>> ELSE <<"strip", r.plain>>
TInit == l = 0
TNext == /\ l < Len(Trace)
         /\ l' = l + 1
         /\ LET b == Bad(Trace[l+1]) IN b = <<>> \/ PrintT(<<"BAD", l+1, {b[1]}, ToJson(b[2])>>)
=============================================================================
