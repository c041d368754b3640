------------------------------- MODULE Runtime ------------------------------
(***************************************************************************)
(* The runtime library on its own: built-in types and arrays of them, used *)
(* the way generated code uses them.  One behaviour per number i: a type   *)
(* and a stream position are chosen; a list of values (the corners of the  *)
(* type, then pseudo-random ones) is written there, read back, and damaged.*)
(*   mode "prim"    single values                                          *)
(*   mode "range"   values and headers outside the format's range          *)
(*   mode "array"   plain arrays                                           *)
(*   mode "packed"  delta-packed arrays                                    *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils, CSV

Job == JsonDeserialize(IOEnv.ZS_JOB)    \* [seed, from, to, out, mode, more : pseudo-random values per behaviour, long]

\* arrays belong to a field of a structure
NoType == [k |-> "struct", r |-> <<1, "S">>, tm |-> NoMap, args |-> <<>>]
OneStruct == [pkgs |-> << [name |-> "p", imports |-> <<>>, order |-> <<"S">>, picks |-> NoMap,
                           decls |-> [S |-> [k |-> "struct", params |-> <<>>, fields |-> <<>>, funcs |-> <<>>, tparams |-> <<>>]]] >>]

VARIABLES i, ph, x
vars == <<i, ph, x>>
H(k) == Mix(Mix(Job.seed, i), k)

\* ---------------------------------------------------------- types ---------
\* fn: the function for exactly this width is used; as: the element type has room for this many bits
U(n) == [p |-> "uint", n |-> n, fn |-> FALSE]
S(n) == [p |-> "sint", n |-> n, fn |-> FALSE]
Widths == [n \in 1..64 |-> U(n)] \o [n \in 1..64 |-> S(n)]
Exact == << [U(8) EXCEPT !.fn = TRUE], [U(16) EXCEPT !.fn = TRUE], [U(32) EXCEPT !.fn = TRUE], [U(64) EXCEPT !.fn = TRUE],
            [S(8) EXCEPT !.fn = TRUE], [S(16) EXCEPT !.fn = TRUE], [S(32) EXCEPT !.fn = TRUE], [S(64) EXCEPT !.fn = TRUE] >>
VarTypes == << [p |-> "varu", m |-> 2], [p |-> "varu", m |-> 4], [p |-> "varu", m |-> 8], [p |-> "varu", m |-> 9],
               [p |-> "vars", m |-> 2], [p |-> "vars", m |-> 4], [p |-> "vars", m |-> 8], [p |-> "vars", m |-> 9],
               [p |-> "varsize"] >>
Others == << [p |-> "bool"], [p |-> "f16"], [p |-> "f32"], [p |-> "f64"], [p |-> "str"], [p |-> "bytes"], [p |-> "extern"] >>
\* types with many corners come up more often
PrimTypes == Widths \o Exact \o VarTypes \o VarTypes \o Others \o Others
RangeTypes == VarTypes \o << [p |-> "str"], [p |-> "bytes"], [p |-> "extern"] >>
Narrow == [n \in 1..64 |-> [p |-> "uint", n |-> n, as |-> IF n % 3 = 0 THEN 64 ELSE n]]
          \o [n \in 1..64 |-> [p |-> "sint", n |-> n, as |-> IF n % 3 = 0 THEN 64 ELSE n]]
Common == << U(8), U(16), U(32), U(64), S(8), S(16), S(32), S(64) >>
ArrayTypes == Narrow \o VarTypes \o VarTypes \o Others \o Others
PackedTypes == Narrow \o VarTypes \o VarTypes \o Common \o Common
Types == CASE Job.mode = "prim" -> PrimTypes
           [] Job.mode = "range" -> RangeTypes
           [] Job.mode = "array" -> ArrayTypes
           [] OTHER -> PackedTypes
T == Types[(i % Len(Types)) + 1]
Round == i \div Len(Types)              \* how often this type came up before
Pos == IF Round < 8 THEN (i * 5 + Round) % 8 ELSE Rnd(H(1), 70)

\* ---------------------------------------------------------- values --------
OfPrim(t, vs) == SelectSeq(vs, LAMBDA v : PrimOk(t, v))
Around(v) == << BSub(v, BOne), v, BAdd(v, BOne) >>
Signs(vs) == vs \o [k \in 1..Len(vs) |-> BNeg(vs[k])]
Alternating(n, first) == BOfBits([k \in 1..n |-> (k + first) % 2], 1, n)
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN s ELSE <<Head(s)>> \o Distinct(SelectSeq(Tail(s), LAMBDA e : e # Head(s)))
\* every place where a variable-length form changes
VarCorners(sg, m) ==
    FlattenSeq([k \in 1..m |-> LET b == Around(BPow2(VarPayload(sg, m, k))) IN IF sg THEN Signs(b) ELSE b])
\* strings and blobs of a given length
Letters(n, c) == [k \in 1..n |-> 97 + ((k + c) % 26)]
Lens == <<0, 1, 2, 7, 8, 63, 64, 127, 128, 129, 255, 256>>
Blob(n) == [n |-> BI(n), b |-> [k \in 1..n |-> (k * 37 + n) % 256]]
Ext(n) == [n |-> BI(n), b |-> BitsBytes(SubSeq(BytesBits([k \in 1..((n + 7) \div 8) |-> (k * 91 + n * 7 + 1) % 256]), 1, n))]
FloatCorners(e, m) ==          \* patterns: zero, one, smallest, largest, infinity, both signs
    LET mk(s, eb, mb) == BOfBits(<<s>> \o eb \o mb, 1, 1 + e + m)
        ones(n) == [k \in 1..n |-> 1]
        half(n) == [k \in 1..n |-> IF k = 1 THEN 0 ELSE 1]
        tiny == Zeros(m - 1) \o <<1>>
        lastOff(n) == [k \in 1..n |-> IF k = n THEN 0 ELSE 1]
    IN FlattenSeq([s \in 1..2 |-> << mk(s - 1, Zeros(e), Zeros(m)), mk(s - 1, half(e), Zeros(m)), mk(s - 1, Zeros(e), tiny),
                                     mk(s - 1, lastOff(e), ones(m)), mk(s - 1, ones(e), Zeros(m)), mk(s - 1, half(e), tiny) >>])
\* binary16: all exponents around the borders of its range, mantissas that are ties or nearly ties
F16Corners(r) ==
    LET es == <<95, 101, 102, 103, 104, 112, 113, 114, 127, 141, 142, 143>>
        e == es[(r % Len(es)) + 1]
        eb == [k \in 1..8 |-> (e \div P2[9 - k]) % 2]
        \* the bit that decides rounding: normal numbers keep 10 bits, subnormals fewer
        kept == IF e >= 113 THEN 10 ELSE IF e >= 103 THEN e - 103 ELSE 0
        mk(s, odd, tie, tail) ==
            BOfBits(<<s>> \o eb \o [k \in 1..23 |-> IF k = kept THEN odd ELSE IF k = kept + 1 THEN tie
                                                    ELSE IF k = 23 THEN tail ELSE IF k < kept THEN odd ELSE 0], 1, 32)
    IN FlattenSeq([c \in 1..8 |-> << mk(c % 2, (c \div 2) % 2, 1, (c \div 4) % 2), mk(c % 2, (c \div 2) % 2, 0, (c \div 4) % 2) >>])
Corners(t) ==
    CASE t.p = "uint" -> << BZero, BOne, NumMax(t), BSub(NumMax(t), BOne), BPow2(t.n - 1), Alternating(t.n, 0), Alternating(t.n, 1) >>
      [] t.p = "sint" -> << BZero, BOne, BNeg(BOne), NumMax(t), NumMin(t), BAdd(NumMin(t), BOne),
                            BOfSBits(BToBits(Alternating(t.n, 0), t.n), 1, t.n), BOfSBits(BToBits(Alternating(t.n, 1), t.n), 1, t.n) >>
      [] t.p = "varu" -> << BZero, BOne >> \o VarCorners(FALSE, t.m)
      [] t.p = "vars" -> << BZero, BOne, BNeg(BOne), INT64MIN >> \o VarCorners(TRUE, t.m)
      [] t.p = "varsize" -> << BZero, BOne >> \o VarCorners(FALSE, 5) \o << MAXSIZE, BSub(MAXSIZE, BOne) >>
      [] t.p = "bool" -> << TRUE, FALSE >>
      [] t.p = "f16" -> F16Corners(Round) \o FloatCorners(8, 23)
      [] t.p = "f32" -> FloatCorners(8, 23)
      [] t.p = "f64" -> FloatCorners(11, 52)
      [] t.p = "str" -> [k \in 1..Len(Lens) |-> Letters(Lens[k], k)]
      [] t.p = "bytes" -> [k \in 1..Len(Lens) |-> Blob(Lens[k])]
      [] t.p = "extern" -> [k \in 1..21 |-> Ext(k - 1)] \o << Ext(127), Ext(128), Ext(129), Ext(1023) >>
Long == IF ~Job.long \/ Round % 8 # 3 THEN <<>>
        ELSE CASE T.p = "str" -> << Letters(16383, 1), Letters(16384, 2) >>
               [] T.p = "bytes" -> << Blob(16383), Blob(16384) >>
               [] T.p = "extern" -> << Ext(16383), Ext(16384), Ext(16391) >>
               [] OTHER -> <<>>
Values == Distinct(OfPrim(T, Corners(T) \o [k \in 1..Job.more |-> GenPrim(T, H(10 + k), 0)])) \o Long

\* values the Rust type has and the zserio type has not
RustHas(t, v) == CASE t.p = "varu" -> InU(v, 8 * (IF t.m = 9 THEN 8 ELSE t.m))
                   [] t.p = "vars" -> InS(v, 8 * (IF t.m = 9 THEN 8 ELSE t.m))
                   [] t.p = "varsize" -> InU(v, 32)
                   [] OTHER -> TRUE
RustCorners(t) ==
    CASE t.p = "varu" -> LET n == 8 * (IF t.m = 9 THEN 8 ELSE t.m) IN
                         << BSub(BPow2(n), BOne), BSub(BPow2(n), BI(2)), BPow2(n - 1), BSub(BPow2(n - 1), BOne) >>
      [] t.p = "vars" -> LET n == 8 * (IF t.m = 9 THEN 8 ELSE t.m) IN
                         << BSub(BPow2(n - 1), BOne), BNeg(BPow2(n - 1)), BSub(BOne, BPow2(n - 1)), BPow2(n - 2), BNeg(BPow2(n - 2)) >>
      [] t.p = "varsize" -> << BPow2(31), BAdd(BPow2(31), BOne), BSub(BPow2(32), BOne) >>
      [] OTHER -> <<>>
\* blobs whose declared size is not the size of their data
WrongBlobs(t) ==
    CASE t.p = "bytes" -> [k \in 1..6 |-> [n |-> BI(((k * 7) % 5) + (IF k % 2 = 0 THEN 5 ELSE 0)), b |-> [j \in 1..k |-> j]]]
      [] t.p = "extern" -> << [n |-> BI(9), b |-> <<255>>], [n |-> BI(8), b |-> <<255, 1>>], [n |-> BI(1), b |-> <<>>],
                              [n |-> BI(16), b |-> <<255, 1, 7>>], [n |-> BPow2(31), b |-> <<1>>] >>
      [] OTHER -> <<>>
RangeValues ==
    LET all == Corners(T) \o RustCorners(T)
               \o (IF IsNumPrim(T) THEN [k \in 1..Job.more |->
                        LET w == [p |-> IF IsSignedPrim(T) THEN "sint" ELSE "uint",
                                  n |-> IF T.p = "varsize" THEN 32 ELSE 8 * (IF T.m = 9 THEN 8 ELSE T.m)]
                        IN GenNum0(w, H(10 + k))] ELSE <<>>)
    IN Distinct(SelectSeq(all, LAMBDA v : RustHas(T, v))) \o SelectSeq(WrongBlobs(T), LAMBDA v : ~PrimOk(T, v))
\* forms of a number that a reader has to take as well: more bytes than needed; and size headers that say too much
AllForms(sg, m, v) == [k \in 1..(m - VarBytes(sg, m, v) + 1) |-> VarEncK(sg, m, v, VarBytes(sg, m, v) + k - 1)]
\* arbitrary bytes, often with the continuation bits set
WildBytes(h, n) == [k \in 1..n |-> LET c == Rnd(Mix(h, k), 256) IN IF Rnd(Mix(h, 100 + k), 3) = 0 /\ c < 128 THEN c + 128 ELSE c]

\* ---------------------------------------------------------- arrays --------
Lit(n) == [op |-> "int", v |-> BI(n)]
\* how the array is declared
Shape(h) == [fixed |-> Rnd(Mix(h, 1), 3) = 0, off |-> Rnd(Mix(h, 2), 4) = 0, packed |-> Job.mode = "packed"]
Field(sh, n) ==
    [name |-> "a", type |-> [k |-> "prim", t |-> T], opt |-> FALSE, cond |-> <<>>, align |-> 0, off |-> <<>>,
     offidx |-> sh.off, isoff |-> FALSE,
     arr |-> << [len |-> IF sh.fixed THEN <<Lit(n)>> ELSE <<>>, packed |-> sh.packed] >>]

\* A sequence whose largest difference between neighbours has exactly d bits, if
\* the type has room for that.  Steps alternate between that and smaller ones, or,
\* with at > 0, only the at-th step from the end is that large.
RECURSIVE Walk(_, _, _, _, _, _)
Walk(t, prev, d, k, at, h) ==
    IF k = 0 THEN <<>>
    ELSE LET big == IF at > 0 THEN k = at ELSE Rnd(Mix(h, k), 3) # 1 \/ k = 1
             w == IF big THEN d ELSE Rnd(Mix(h, 300 + k), IF at > 0 THEN MinI(d, 2) + 1 ELSE d + 1)
             kind == Rnd(Mix(h, 100 + k), 4)
             mag == IF w = 0 THEN BZero
                    ELSE IF kind = 0 THEN BPow2(w - 1)
                    ELSE IF kind = 1 THEN BSub(BPow2(w), BOne)
                    ELSE BAdd(BPow2(w - 1), BOfBits(RndBits(Mix(h, 200 + k), w - 1), 1, w - 1))
             up == BAdd(prev, mag)
             down == BSub(prev, mag)
             first == Rnd(Mix(h, 400 + k), 2) = 0
             a == IF first THEN up ELSE down
             b == IF first THEN down ELSE up
             next == IF PrimOk(t, a) THEN a ELSE IF PrimOk(t, b) THEN b ELSE prev
         IN <<next>> \o Walk(t, next, d, k - 1, at, h)
\* difference widths near which the decision for or against packing turns
Turning(w) == SelectSeq(<<0, 1, 2, w - 8, w - 7, w - 6, w - 5, w - 4, w - 3, w - 2, w - 1, w, w + 1, 60, 61, 62, 63, 64>>,
                        LAMBDA d : d >= 0 /\ d <= w + 1 /\ d <= 64)
Counts == <<2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17>>
PackedSeq(h) ==
    LET w == Width(T) + (IF IsSignedPrim(T) THEN 1 ELSE 0)
        ds == Turning(w)
        d == ds[Rnd(Mix(h, 1), Len(ds)) + 1]
        n == IF d >= 60 THEN 9 + Rnd(Mix(h, 2), 4) ELSE Counts[Rnd(Mix(h, 2), Len(Counts)) + 1]
        starts == OfPrim(T, << BZero, NumMax(T), NumMin(T), GenNum(T, Mix(h, 3), 0), BI(Rnd(Mix(h, 4), 200)) >>)
        v0 == starts[Rnd(Mix(h, 5), Len(starts)) + 1]
    IN CASE Rnd(Mix(h, 6), 12) = 0 -> <<>>
         [] Rnd(Mix(h, 6), 12) = 1 -> <<v0>>
         [] Rnd(Mix(h, 6), 12) = 2 -> [k \in 1..n |-> GenNum(T, Mix(h, 10 + k), 0)]
         [] OTHER -> LET at == CASE Rnd(Mix(h, 8), 4) = 0 -> 1
                                [] Rnd(Mix(h, 8), 4) = 1 -> Rnd(Mix(h, 9), n - 1) + 1
                                [] OTHER -> 0
                     IN <<v0>> \o Walk(T, v0, d, n - 1, at, Mix(h, 7))
PlainSeq(h) == LET n == CASE Rnd(Mix(h, 1), 12) = 0 -> 0
                          [] Rnd(Mix(h, 1), 12) = 1 -> 127 + Rnd(Mix(h, 2), 3)
                          [] OTHER -> 1 + Rnd(Mix(h, 2), 9)
                   vs == Values
               IN IF T.p \in {"str", "bytes", "extern"} \/ Rnd(Mix(h, 3), 2) = 0
                  THEN [k \in 1..n |-> GenPrim(T, Mix(h, 10 + k), 0)]
                  ELSE [k \in 1..n |-> vs[Rnd(Mix(h, 10 + k), Len(vs)) + 1]]
\* the length header has several bytes
LongSeq(k) == LET v == IF T.p = "bool" THEN TRUE ELSE IF T.p = "sint" THEN BNeg(BOne) ELSE BOne IN [j \in 1..(16383 + k) |-> v]
HasLong == Job.long /\ Job.mode = "array" /\ Round = 0 /\ (T.p = "bool" \/ (T.p \in {"uint", "sint"} /\ T.n \in {1, 5, 8}))
Arrays ==
    [k \in 1..Job.more |-> LET sh == Shape(H(1000 + k)) IN
        [sh |-> sh, vs |-> IF Job.mode = "packed" THEN PackedSeq(H(2000 + k)) ELSE PlainSeq(H(2000 + k))]]
    \o (IF HasLong THEN [k \in 1..2 |-> [sh |-> [fixed |-> FALSE, off |-> FALSE, packed |-> FALSE], vs |-> LongSeq(k - 1)]] ELSE <<>>)
\* a plain array in closed form: what EncArr does, without its recursion
PlainForm(a) == (IF a.sh.fixed THEN <<>> ELSE SizeEnc(BI(Len(a.vs)))) \o FlattenSeq([k \in 1..Len(a.vs) |-> PrimEnc(T, a.vs[k])])
IsLong(a) == Len(a.vs) > 1000
ArrEncode(a, pos) == IF IsLong(a) THEN PlainForm(a) ELSE EncArr(NoType, Field(a.sh, Len(a.vs)), a.vs, "$" :> NoMap, pos, FALSE).b
ArrDecode(a, b, pos) == DecArr(NoType, Field(a.sh, Len(a.vs)), "$" :> NoMap, b, pos, FALSE)

\* ---------------------------------------------------------- behaviours ----
Ones(n) == [k \in 1..n |-> 1]
Tail1(h, n) == RndBits(h, ((8 - (n % 8)) % 8) + 8 * Rnd(Mix(h, 3), 3))
IsArr == Job.mode \in {"array", "packed"}
NaNBits(b, e) == (\A k \in 2..(e + 1) : b[k] = 1) /\ \E k \in (e + 2)..Len(b) : b[k] = 1
IsNaN(t, v) == IF t.p \in {"f16", "f32"} THEN NaNBits(BToBits(v, 32), 8)
               ELSE IF t.p = "f64" THEN NaNBits(BToBits(v, 64), 11) ELSE FALSE

Init == i \in Job.from..Job.to /\ ph = "start" /\ x = NoMap
Choose == /\ ph = "start" /\ ph' = "chosen" /\ UNCHANGED i
          /\ x' = [vs |-> IF IsArr THEN Arrays ELSE IF Job.mode = "range" THEN RangeValues ELSE Values]
\* every value by itself: [v, ok, bits]
Write == /\ ph = "chosen" /\ ph' = "written" /\ UNCHANGED i
         /\ x' = [w |-> [k \in 1..Len(x.vs) |->
                    LET v == x.vs[k] IN
                    IF IsArr THEN [v |-> v, ok |-> TRUE, bits |-> ArrEncode(v, Pos)]
                    ELSE IF PrimOk(T, v) THEN [v |-> v, ok |-> TRUE, bits |-> PrimEnc(T, v)]
                    ELSE [v |-> v, ok |-> FALSE, bits |-> <<>>]]]
\* very long values are not read back by the specification: its readers (checked on the others) would take minutes
TooLong(bits) == Len(bits) > 16000
DecodeAt(v, b, pos) == IF IsArr THEN ArrDecode(v, b, pos) ELSE PrimDec(T, b, pos)
Read == /\ ph = "written" /\ ph' = "read" /\ UNCHANGED i
        /\ x' = x @@ [r |-> [k \in 1..Len(x.w) |->
                    IF ~x.w[k].ok THEN [b |-> <<>>, r |-> Fail("none")]
                    ELSE LET b == Ones(Pos) \o x.w[k].bits
                             s == b \o Tail1(H(5000 + k), Len(b))
                         IN [b |-> s, r |-> IF TooLong(x.w[k].bits)
                                                THEN Ok(IF IsArr THEN x.w[k].v.vs ELSE PrimCanon(T, x.w[k].v), Pos + Len(x.w[k].bits))
                                                ELSE DecodeAt(x.w[k].v, s, Pos)]]]
\* damaged streams: other forms of numbers, headers, arbitrary bytes
Streams ==
    LET goods == SelectSeq(x.w, LAMBDA w : w.ok /\ Len(w.bits) < 3000)
        cut(k) == LET b == BitsBytes(Ones(Pos) \o goods[k].bits) IN
                  [v |-> goods[k].v, b |-> BytesBits(SubSeq(b, 1, (Pos + 7) \div 8 + Rnd(H(6000 + k), MaxI(1, Len(b) - (Pos + 7) \div 8))))]
        hurt(k) == LET b == BitsBytes(Ones(Pos) \o goods[k].bits)
                       c == Corrupt(b, H(7000 + k))
                   IN [v |-> goods[k].v, b |-> BytesBits(c)]
        wild(k) == [v |-> goods[k].v, b |-> Ones(Pos) \o BytesBits(WildBytes(H(8000 + k), 12))]
        forms == CASE ~IsArr /\ T.p = "varu" -> FlattenSeq([k \in 1..Len(goods) |-> AllForms(FALSE, T.m, goods[k].v)])
                   [] ~IsArr /\ T.p = "vars" -> FlattenSeq([k \in 1..Len(goods) |->
                                                  IF goods[k].v = INT64MIN /\ T.m = 9 THEN <<>> ELSE AllForms(TRUE, T.m, goods[k].v)])
                   [] ~IsArr /\ T.p = "varsize" -> FlattenSeq([k \in 1..Len(goods) |-> AllForms(FALSE, 5, goods[k].v)])
                                                  \o [k \in 1..8 |-> VarEncK(FALSE, 5, BAdd(BPow2(31), BI(k * k * 1237 - 1237)), 5)]
                                                  \o [k \in 1..5 |-> VarEncK(FALSE, 5, BSub(BPow2(36), BI(k)), 5)]
                   \* lengths that cannot be
                   [] ~IsArr /\ T.p \in {"str", "bytes", "extern"} ->
                          [k \in 1..5 |-> VarEncK(FALSE, 5, BAdd(BPow2(30 + k), BI(k)), 5) \o Ones(40)]
                          \o [k \in 1..4 |-> SizeEnc(BI(5 + k)) \o BytesBits(<<97, 98, 99, 100, 101>>)]
                   [] OTHER -> <<>>
        form(k) == [v |-> goods[1].v, b |-> Ones(Pos) \o forms[k] \o Tail1(H(9000 + k), Pos + Len(forms[k]))]
    IN IF goods = <<>> THEN <<>>
       ELSE [k \in 1..Len(goods) |-> cut(k)] \o [k \in 1..Len(goods) |-> hurt(k)]
            \o [k \in 1..MinI(4, Len(goods)) |-> wild(k)] \o [k \in 1..Len(forms) |-> form(k)]
Damage == /\ ph = "read" /\ ph' = "damaged" /\ UNCHANGED i
          /\ x' = x @@ [d |-> LET ss == SelectSeq(Streams, LAMBDA s : Len(s.b) >= Pos /\ Len(s.b) % 8 = 0) IN
                              [k \in 1..Len(ss) |-> [v |-> ss[k].v, b |-> ss[k].b, r |-> DecodeAt(ss[k].v, ss[k].b, Pos)]]]

\* ---------------------------------------------------------- emission ------
ArrOp(o, v) == [op |-> o, t |-> T, packed |-> v.sh.packed, off |-> v.sh.off, pos |-> Pos,
                fixed |-> IF v.sh.fixed THEN Len(v.vs) ELSE -1]
EncOp(v) == IF IsArr THEN ArrOp("aenc", v) @@ [v |-> v.vs] ELSE [op |-> "penc", t |-> T, v |-> v, pos |-> Pos]
DecOp(v, b, k) == IF IsArr THEN ArrOp("adec", v) @@ [b |-> BitsBytes(b), chunk |-> <<0, 1, 3, 1000>>[(k % 4) + 1],
                                                     before |-> IF k % 3 = 0 THEN v.vs ELSE <<>>]
                  ELSE [op |-> "pdec", t |-> T, b |-> BitsBytes(b), pos |-> Pos]
DecExp(r) == IF ~r.ok THEN r
             ELSE [ok |-> TRUE, n |-> r.pos - Pos,
                   v |-> IF ~IsArr /\ IsNaN(T, r.v) THEN [nan |-> TRUE]
                         ELSE IF IsArr THEN [k \in 1..Len(r.v) |-> IF IsNaN(T, r.v[k]) THEN [nan |-> TRUE] ELSE r.v[k]]
                         ELSE r.v]
\* the runtime has constants for the limits of the types with a name
Limits == IF Job.mode = "range" /\ (T.p \in {"varu", "vars", "varsize"} \/ (T.p \in {"uint", "sint"} /\ T.n \in {8, 16, 32, 64}))
          THEN << [op |-> "lim", t |-> T] >> ELSE <<>>
GoodIdx == SelectSeq([k \in 1..Len(x.w) |-> k], LAMBDA k : x.w[k].ok)
BadIdx == SelectSeq([k \in 1..Len(x.d) |-> k], LAMBDA k : x.d[k].r.ok \/ x.d[k].r.err # "huge")
Case == [i |-> i, root |-> Job.mode \o " " \o T.p \o (IF T.p \in {"uint", "sint"} THEN ToString(T.n) ELSE IF T.p \in {"varu", "vars"} THEN ToString(T.m) ELSE ""),
         ops |-> Limits \o [k \in 1..Len(x.w) |-> EncOp(x.w[k].v)]
                 \o [k \in 1..Len(GoodIdx) |-> DecOp(x.w[GoodIdx[k]].v, x.r[GoodIdx[k]].b, k)]
                 \o [k \in 1..Len(BadIdx) |-> DecOp(x.d[BadIdx[k]].v, x.d[BadIdx[k]].b, k)],
         exp |-> [k \in 1..Len(Limits) |-> [lo |-> NumMin(T), hi |-> NumMax(T)]]
                 \o [k \in 1..Len(x.w) |-> [ok |-> x.w[k].ok, bits |-> x.w[k].bits]]
                 \o [k \in 1..Len(GoodIdx) |-> DecExp(x.r[GoodIdx[k]].r)]
                 \o [k \in 1..Len(BadIdx) |-> DecExp(x.d[BadIdx[k]].r)]]
Emit == /\ ph = "damaged" /\ ph' = "done" /\ UNCHANGED i
        /\ CSVWrite("%1$s", <<ToJson(Case)>>, Job.out \o ToString(i))
        /\ x' = NoMap
Next == Choose \/ Write \/ Read \/ Damage \/ Emit
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------- invariants ----
\* what was written is read back, whatever stands around it
RoundTrip == ph = "read" => \A k \in 1..Len(x.w) : x.w[k].ok =>
    /\ x.r[k].r.ok /\ x.r[k].r.pos = Pos + Len(x.w[k].bits)
    /\ IF IsArr THEN x.r[k].r.v = [j \in 1..Len(x.w[k].v.vs) |-> PrimCanon(T, x.w[k].v.vs[j])]
       ELSE x.r[k].r.v = PrimCanon(T, x.w[k].v)
\* packing costs at most the descriptor's flag, and the declarative form is what the contexts produce
NeverLarger == ph = "written" /\ Job.mode = "packed" => \A k \in 1..Len(x.w) :
    LET a == x.w[k].v IN
    ~a.sh.off => LET hd == IF a.sh.fixed THEN 0 ELSE Len(SizeEnc(BI(Len(a.vs))))
                     body == SubSeq(x.w[k].bits, hd + 1, Len(x.w[k].bits))
                 IN /\ Len(body) <= (IF a.vs = <<>> THEN 0 ELSE 1) + PlainSize(T, a.vs)
                    /\ body = SeqEnc(T, a.vs)
\* the closed form of plain arrays
Closed == ph = "written" /\ Job.mode = "array" => \A k \in 1..Len(x.w) :
    ~x.w[k].v.sh.off /\ ~IsLong(x.w[k].v) => x.w[k].bits = PlainForm(x.w[k].v)
\* the shortest of the forms is what is written, and all forms mean the same
Forms == ph = "written" /\ Job.mode \in {"prim", "range"} /\ T.p \in {"varu", "vars"} => \A k \in 1..Len(x.w) :
    x.w[k].ok /\ ~(x.w[k].v = INT64MIN) =>
        \A f \in ToSet(AllForms(T.p = "vars", T.m, x.w[k].v)) :
            /\ Len(f) >= Len(x.w[k].bits)
            /\ (T.p = "varu" \/ x.w[k].v # BZero) => PrimDec(T, f, 0) = Ok(x.w[k].v, Len(f))
\* no reader goes beyond the data
NoOverread == ph = "damaged" => \A k \in 1..Len(x.d) : x.d[k].r.ok => x.d[k].r.pos <= Len(x.d[k].b)
=============================================================================
