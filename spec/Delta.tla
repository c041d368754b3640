------------------------------- MODULE Delta --------------------------------
(***************************************************************************)
(* Delta packing of one sequence of numbers ("packing context").           *)
(*                                                                         *)
(* Two formulations are given and model-checked against each other         *)
(* (NeverLarger in Runtime.tla):                                           *)
(*  - declarative: Plan/SeqEnc say what the packed form of a whole         *)
(*    sequence is;                                                         *)
(*  - operational: a context is a little state machine that is fed the     *)
(*    elements twice, first to initialise, then to write or size them, or  *)
(*    it reads them back one at a time.  That is the shape of the          *)
(*    implementation, and one context per packable field of the element    *)
(*    type is what an array of compounds uses.                             *)
(***************************************************************************)
EXTENDS Prims

MAXDELTABITS == 62                 \* a delta wider than this is never packed

\* ------------------------------------------------------------ declarative
Deltas(vs) == [i \in 1..(Len(vs) - 1) |-> BSub(vs[i + 1], vs[i])]
MaxDeltaBits(vs) == FoldLeft(LAMBDA acc, d : MaxI(acc, BBitLen(d)), 0, Deltas(vs))
DeltaWidth(mx) == IF mx = 0 THEN 0 ELSE mx + 1
PlainSize(t, vs) == FoldLeft(LAMBDA acc, v : acc + Len(PrimEnc(t, v)), 0, vs)
\* packed? and the delta width field
Plan(t, vs) ==
    IF Len(vs) < 2 THEN [packed |-> FALSE, mx |-> 0]
    ELSE LET mx == MaxDeltaBits(vs)
             psize == 1 + 6 + Len(PrimEnc(t, vs[1])) + (Len(vs) - 1) * DeltaWidth(mx)
         IN [packed |-> mx <= MAXDELTABITS /\ psize < 1 + PlainSize(t, vs), mx |-> mx]
Descriptor(plan) == IF plan.packed THEN <<1>> \o BMagBits(BI(plan.mx), 6) ELSE <<0>>
\* code of element i of vs
ElemCode(t, plan, vs, i) ==
    IF i = 1 THEN Descriptor(plan) \o PrimEnc(t, vs[1])
    ELSE IF ~plan.packed THEN PrimEnc(t, vs[i])
    ELSE BToBits(BSub(vs[i], vs[i - 1]), DeltaWidth(plan.mx))
SeqEnc(t, vs) == LET plan == Plan(t, vs)
                 IN FlattenSeq([i \in 1..Len(vs) |-> ElemCode(t, plan, vs, i)])

\* ------------------------------------------------------------- operational
\* stage "new" -> ("init" ...) -> "run"
CtxNew == [st |-> "new", n |-> 0, plain |-> 0, first |-> 0, prev |-> BZero, mx |-> 0, packed |-> FALSE]

CtxInit(c, t, v) ==
    LET sz == Len(PrimEnc(t, v))
        d  == BBitLen(BSub(v, c.prev))
    IN IF c.n = 0
       THEN [c EXCEPT !.st = "init", !.n = 1, !.plain = sz, !.first = sz, !.prev = v]
       ELSE [c EXCEPT !.n = @ + 1, !.plain = @ + sz, !.mx = MaxI(@, d), !.prev = v]
\* the decision, taken when the first element is processed
CtxDecide(c) ==
    [c EXCEPT !.packed = /\ c.n >= 2
                         /\ c.mx <= MAXDELTABITS
                         /\ 7 + c.first + (c.n - 1) * DeltaWidth(c.mx) < 1 + c.plain]
\* <<bits, context afterwards>>
CtxWrite(c, t, v) ==
    IF c.st # "run"
    THEN LET d == CtxDecide(c) IN
         << (IF d.packed THEN <<1>> \o BMagBits(BI(d.mx), 6) ELSE <<0>>) \o PrimEnc(t, v),
            [d EXCEPT !.st = "run", !.prev = v] >>
    ELSE << IF c.packed THEN BToBits(BSub(v, c.prev), DeltaWidth(c.mx)) ELSE PrimEnc(t, v),
            [c EXCEPT !.prev = v] >>
\* [ok, v, pos, c]; "loose" marks a delta that leaves the element type: no
\* writer produces it and the format gives it no meaning
CtxRead(c, t, b, pos) ==
    LET plain(p, c1) == LET r == PrimDec(t, b, p) IN
                        IF ~r.ok THEN r
                        ELSE [ok |-> TRUE, v |-> r.v, pos |-> r.pos, c |-> [c1 EXCEPT !.prev = r.v]]
    IN IF c.st # "run"
       THEN IF pos >= Len(b) THEN Fail("eof")
            ELSE IF b[pos + 1] = 0 THEN plain(pos + 1, [c EXCEPT !.st = "run", !.packed = FALSE])
            ELSE IF pos + 7 > Len(b) THEN Fail("eof")
            ELSE plain(pos + 7, [c EXCEPT !.st = "run", !.packed = TRUE, !.mx = NatOfBits(b, pos + 2, pos + 7)])
       ELSE IF ~c.packed THEN plain(pos, c)
       ELSE LET w == DeltaWidth(c.mx) IN
            IF pos + w > Len(b) THEN Fail("eof")
            ELSE LET v == BAdd(c.prev, BOfSBits(b, pos + 1, pos + w)) IN
                 IF PrimOk(t, v) THEN [ok |-> TRUE, v |-> v, pos |-> pos + w, c |-> [c EXCEPT !.prev = v]]
                 ELSE Fail("loose")

RECURSIVE CtxInitAll(_, _, _)
CtxInitAll(c, t, vs) == IF vs = <<>> THEN c ELSE CtxInitAll(CtxInit(c, t, Head(vs)), t, Tail(vs))
RECURSIVE CtxWriteAll(_, _, _)
CtxWriteAll(c, t, vs) == IF vs = <<>> THEN <<>>
                         ELSE LET w == CtxWrite(c, t, Head(vs))
                              IN w[1] \o CtxWriteAll(w[2], t, Tail(vs))
RECURSIVE CtxReadAll(_, _, _, _, _)
CtxReadAll(c, t, b, pos, k) ==
    IF k = 0 THEN Ok(<<>>, pos)
    ELSE LET r == CtxRead(c, t, b, pos) IN
         IF ~r.ok THEN r
         ELSE LET rest == CtxReadAll(r.c, t, b, r.pos, k - 1) IN
              IF ~rest.ok THEN rest ELSE Ok(<<r.v>> \o rest.v, rest.pos)
=============================================================================
