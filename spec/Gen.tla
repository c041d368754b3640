-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Behaviour generation: pseudo-random well-formed objects of any type of  *)
(* the schema, and corrupted byte strings.  Everything is a pure function  *)
(* of a seed, so a case can be regenerated from its number.                *)
(* Generators take a hash h, and a "drift" d: elements of one array may    *)
(* share h and differ in d only, which yields slowly varying sequences     *)
(* (the ones delta packing is made for).                                   *)
(***************************************************************************)
EXTENDS Zserio

\* two 15-bit halves, mixed without overflowing TLC's 32-bit integers
Mix(x, k) == LET a == x % 32768
                 b == x \div 32768
                 k0 == k % 32768
                 k1 == k \div 32768
                 a1 == (a * 20077 + b * 12345 + k0 * 271 + k1 * 97 + 911) % 32749
                 b1 == (b * 30011 + a1 * 17041 + k0 * 523 + k1 * 331 + 77) % 32719
                 a2 == (a1 * 21023 + b1 * 9473 + 5) % 32749
             IN a2 * 32768 + b1
Rnd(x, n) == ((x \div 32768) + (x % 32768) * 3) % n          \* 0..n-1
RECURSIVE RndBitsR(_, _)
RndBits(h, n) == RndBitsR(h, n)
RndBitsR(h, n) == IF n = 0 THEN <<>>
                  ELSE IF n <= 12 THEN [i \in 1..n |-> (((h \div 32768) % 32768) \div P2[i + 2]) % 2]
                  ELSE [i \in 1..12 |-> (((h \div 32768) % 32768) \div P2[i + 2]) % 2] \o RndBitsR(Mix(h, 7), n - 12)

\* largest/smallest value of a numeric type
NumMax(t) == CASE t.p = "uint" -> BSub(BPow2(t.n), BOne)
               [] t.p = "sint" -> BSub(BPow2(t.n - 1), BOne)
               [] t.p = "varu" -> BSub(BPow2(VarPayload(FALSE, t.m, t.m)), BOne)
               [] t.p = "vars" -> BSub(BPow2(VarPayload(TRUE, t.m, t.m)), BOne)
               [] t.p = "varsize" -> MAXSIZE
NumMin(t) == CASE t.p = "sint" -> BNeg(BPow2(t.n - 1))
               [] t.p = "vars" -> IF t.m = 9 THEN INT64MIN ELSE BNeg(NumMax(t))
               [] OTHER -> BZero
Width(t) == BBitLen(NumMax(t))
GenNum0(t, h) ==
    LET c == Rnd(Mix(h, 1), 12)
        k == Rnd(Mix(h, 2), Width(t) + 1)             \* a bit length
        neg == IsSignedPrim(t) /\ Rnd(Mix(h, 3), 2) = 1
        sgn(v) == IF neg THEN BNeg(v) ELSE v
    IN CASE c = 0 -> BZero
         [] c = 1 -> NumMax(t)
         [] c = 2 -> NumMin(t)
         [] c \in {3, 4} -> LET v == sgn(BI(Rnd(Mix(h, 4), 4))) IN IF PrimOk(t, v) THEN v ELSE BZero
         [] c = 5 -> LET v == sgn(BPow2(k)) IN IF PrimOk(t, v) THEN v ELSE BZero
         [] c = 6 -> LET v == sgn(BSub(BPow2(k), BOne)) IN IF PrimOk(t, v) THEN v ELSE BZero
         [] c = 7 -> LET v == sgn(BAdd(BPow2(k), BOne)) IN IF PrimOk(t, v) THEN v ELSE BZero
         [] OTHER -> LET v == sgn(BOfBits(RndBits(Mix(h, 5), k), 1, k)) IN IF PrimOk(t, v) THEN v ELSE BZero
GenNum(t, h, d) ==
    LET v == GenNum0(t, h)
        w == BAdd(v, BI(Rnd(d, 5) - 2))
    IN IF d = 0 THEN v ELSE IF PrimOk(t, w) THEN w ELSE v

\* strings: ASCII, multi-byte, and now and then longer than one header byte can say
Snips == << <<>>, <<97>>, <<98, 99>>, <<195, 164>>, <<226, 130, 172>>, <<240, 159, 140, 141>>, <<0>>, <<127>>,
            <<122, 122, 122, 122>>, <<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<239, 191, 189>>, <<244, 143, 191, 191>> >>
GenStr(h) == LET n == Rnd(Mix(h, 1), 4)
                 s == FlattenSeq([i \in 1..n |-> Snips[Rnd(Mix(h, 10 + i), Len(Snips)) + 1]])
             IN IF Rnd(Mix(h, 2), 40) = 0 THEN s \o [i \in 1..(120 + Rnd(Mix(h, 3), 20)) |-> 97 + (i % 26)] ELSE s
GenBlob(h, n) == [i \in 1..n |-> Rnd(Mix(h, i), 256)]
\* float patterns that are not NaN (NaN payloads carry no meaning)
GenF(h, e, m) ==      \* e exponent bits, m mantissa bits
    LET c == Rnd(Mix(h, 1), 8)
        s == <<Rnd(Mix(h, 2), 2)>>
        eb == RndBits(Mix(h, 3), e)
        mb == RndBits(Mix(h, 4), m)
        allOne(x) == \A i \in 1..Len(x) : x[i] = 1
        b == CASE c = 0 -> s \o Zeros(e + m)
               [] c = 1 -> s \o [i \in 1..e |-> 1] \o Zeros(m)          \* infinity
               [] c = 2 -> s \o Zeros(e) \o mb                           \* subnormal
               [] c = 3 -> s \o [i \in 1..e |-> IF i = 1 THEN 0 ELSE 1] \o Zeros(m)   \* one
               [] OTHER -> s \o (IF allOne(eb) THEN Zeros(e) ELSE eb) \o mb
    IN BOfBits(b, 1, 1 + e + m)
\* f32 patterns interesting for binary16: exponents 95..145, few or many mantissa bits
GenF16(h) ==
    LET c == Rnd(Mix(h, 1), 6)
        e == 95 + Rnd(Mix(h, 2), 51)
        s == <<Rnd(Mix(h, 3), 2)>>
        eb == [i \in 1..8 |-> (e \div P2[9 - i]) % 2]
        mb == RndBits(Mix(h, 4), 23)
        keep == 8 + Rnd(Mix(h, 5), 6)                                   \* mantissa bits kept
    IN IF c = 0 THEN GenF(h, 8, 23)
       ELSE BOfBits(s \o eb \o [i \in 1..23 |-> IF i <= keep \/ (c = 1 /\ i > 20) THEN mb[i] ELSE 0], 1, 32)

GenPrim(t, h, d) ==
    CASE IsNumPrim(t) -> GenNum(t, h, d)
      [] t.p = "bool" -> Rnd(Mix(h, d), 2) = 1
      [] t.p = "f16" -> GenF16(Mix(h, d))
      [] t.p = "f32" -> GenF(Mix(h, d), 8, 23)
      [] t.p = "f64" -> GenF(Mix(h, d), 11, 52)
      [] t.p = "str" -> GenStr(Mix(h, d))
      [] t.p = "bytes" -> LET n == IF Rnd(Mix(h, 2), 40) = 0 THEN 130 ELSE Rnd(Mix(h, 3), 5) IN
                          [n |-> BI(n), b |-> GenBlob(Mix(h, d), n)]
      [] t.p = "extern" -> LET n == IF Rnd(Mix(h, 2), 40) = 0 THEN 131 ELSE Rnd(Mix(h, 3), 27)
                               bl == GenBlob(Mix(h, d), (n + 7) \div 8)
                           IN [n |-> BI(n), b |-> BitsBytes(SubSeq(BytesBits(bl), 1, n))]

RECURSIVE GenElem(_, _, _, _), GenComp(_, _, _, _), GenFields(_, _, _, _, _, _), GenField(_, _, _, _, _)

GenElem(rt, env, h, d) ==
    CASE IsComp(rt) -> GenComp(rt, ParamRec(rt, env), h, d)
      [] rt.k = "enum" -> Rnd(Mix(h, IF Rnd(d, 3) = 1 THEN d ELSE 0), Len(Decl(rt.r).items)) + 1
      [] rt.k = "mask" -> LET vs == MaskVals(rt.r)
                              pick == SelectSeq(vs, LAMBDA v : Rnd(Mix(Mix(h, d), BInt(BWrapU(v, 14)) + BBitLen(v)), 2) = 1)
                          IN FoldLeft(LAMBDA a, v : BOr(a, v), BZero, pick)
      [] OTHER -> LET t == LeafPrim(rt, env) IN IF IsNumPrim(t) /\ t.p \in {"uint", "sint"} /\ t.n = 0 THEN BZero ELSE GenPrim(t, h, d)

\* the elements of an array: unrelated, all alike, or drifting
GenArr(rt, f, o, n, h) ==
    LET ft == FieldType(rt, f)
        mode == Rnd(Mix(h, 21), 4)
    IN [i \in 1..n |-> GenElem(ft, ObjEnv(rt, o, i - 1),
                               IF mode = 0 THEN Mix(h, 100 + i) ELSE Mix(h, 22),
                               IF mode \in {0, 1} THEN 0 ELSE Mix(h, 200 + i))]
\* array lengths
GenLen(h) == LET c == Rnd(Mix(h, 31), 10) IN
             CASE c = 0 -> 0
               [] c = 1 -> 1
               [] c \in 2..7 -> 2 + Rnd(Mix(h, 32), 3)
               [] OTHER -> 3 + Rnd(Mix(h, 33), 6)

\* schemas may say which values the numbers of a certain name should take ("@pick")
Picks(rt, n) == LET ps == Pkgs[rt.r[1]].picks IN IF Has(ps, n) THEN ps[n] ELSE <<>>
GenNamed(rt, f, ft, env, h, d) ==
    LET all == IF ft.k \in {"prim", "dyn"} THEN Picks(rt, f.name) ELSE <<>>
        t == IF all = <<>> THEN ft ELSE LeafPrim(ft, env)
        ps == IF all # <<>> /\ IsNumPrim(t) THEN SelectSeq(all, LAMBDA v : PrimOk(t, v)) ELSE <<>>
        v == Rnd(Mix(h, d), Len(all)) + 1
    IN IF all # <<>> /\ IsFloat(ft) THEN Store(ft, TFlo(F64(all[v][1], BAbs(all[v]), -2, FALSE)))   \* quarters
       ELSE IF ps = <<>> THEN GenElem(ft, env, h, d) ELSE ps[Rnd(Mix(h, d), Len(ps)) + 1]
\* a value for field f of object o (so far); inactive fields get junk where that
\* needs no context
GenField(rt, f, o, h, d) ==
    LET ft == FieldType(rt, f)
        hd == Mix(h, IF d # 0 /\ Rnd(d, 4) = 0 THEN d ELSE 0)        \* structure drifts rarely
        n == IF f.arr[1].len # <<>>
             THEN LET l == ArrLen(rt, f, o) IN IF Undef(l) \/ BIsNeg(l.v) \/ BLt(BI(5000), l.v) THEN 0 ELSE BInt(l.v)
             ELSE LET ls == IF ft.k \in {"prim", "dyn", "struct"} THEN Picks(rt, f.name) ELSE <<>>    \* for an array, its lengths
                  IN IF ls = <<>> THEN GenLen(hd) ELSE BInt(ls[Rnd(Mix(hd, 34), Len(ls)) + 1])
        one == IF f.arr # <<>> THEN GenArr(rt, f, o, n, Mix(h, d))
               ELSE GenNamed(rt, f, ft, ObjEnv(rt, o, -1), h, d)
    IN IF f.opt THEN (IF Rnd(Mix(hd, 41), 3) = 0 THEN <<>> ELSE <<one>>) ELSE one

\* fields not selected: a value if that needs no context, else the marker
Junk(rt, f, o, h) ==
    LET ft == FieldType(rt, f) IN
    IF f.opt \/ f.arr # <<>> \/ IsComp(ft) \/ ft.k = "dyn" THEN Inactive
    ELSE GenElem(ft, ObjEnv(rt, o, -1), Mix(h, 51), 0)

GenFields(rt, fs, i, o, h, d) ==
    IF i > Len(fs) THEN o
    ELSE LET f == fs[i]
             v == IF CondHolds(rt, f, o) THEN GenField(rt, f, o, Mix(h, 60 + i), IF d = 0 THEN 0 ELSE Mix(d, 60 + i))
                  ELSE Junk(rt, f, o, Mix(h, 60 + i))
         IN GenFields(rt, fs, i + 1, (f.name :> v) @@ o, h, d)
GenComp(rt, ps, h, d) ==
    LET o0 == "$" :> ps
        fs == CompFields(rt)
        junk(o, act) == [n \in {fs[i].name : i \in {j \in 1..Len(fs) : fs[j].name # act}} |->
                            Junk(rt, fs[FieldIdx(fs, n)], o, Mix(Mix(h, d), 70 + FieldIdx(fs, n)))]
    IN CASE rt.k = "struct" -> GenFields(rt, fs, 1, o0, h, d)
         [] rt.k = "choice" ->
              LET s == ChoiceSel(rt, o0) IN
              IF s.f = <<>> THEN o0 @@ junk(o0, "")
              ELSE (s.f[1].name :> GenField(rt, s.f[1], o0, Mix(h, 80), d)) @@ o0 @@ junk(o0, s.f[1].name)
         [] rt.k = "union" ->
              LET u == Mix(h, IF d # 0 /\ Rnd(d, 3) = 0 THEN d ELSE 81)
                  \* the first members whose index takes two bytes come up often
                  i == IF Len(fs) > 128 /\ Rnd(Mix(u, 1), 2) = 0 THEN 127 + Rnd(u, Len(fs) - 126) ELSE Rnd(u, Len(fs)) + 1
                  o1 == ("$t" :> i) @@ o0
              IN (fs[i].name :> GenField(rt, fs[i], o1, Mix(h, 82 + i), d)) @@ o1 @@ junk(o1, fs[i].name)

\* a type named in the schema, without parameters
TypeOf(p, n) == ResType([k |-> "ref", n |-> n, q |-> 0, targs |-> <<>>, args |-> <<>>], Scope(p, NoMap))

\* ------------------------------------------------------ corrupted bytes ---
\* bytes is a valid encoding; k selects the kind of corruption
Corrupt(bytes, h) ==
    LET c == Rnd(Mix(h, 1), 10)
        n == Len(bytes)
        i == IF n = 0 THEN 0 ELSE Rnd(Mix(h, 2), n) + 1
        x == Rnd(Mix(h, 3), 256)
        flip == [bytes EXCEPT ![i] = LET bit == P2[Rnd(Mix(h, 4), 8) + 1] IN
                                     IF (@ \div bit) % 2 = 1 THEN @ - bit ELSE @ + bit]
    IN CASE c \in {0, 1} /\ n > 0 -> SubSeq(bytes, 1, i - 1)                  \* truncate
         [] c \in {2, 3, 4} /\ n > 0 -> flip
         [] c = 5 /\ n > 0 -> [bytes EXCEPT ![i] = x]
         [] c = 6 /\ n > 0 -> [bytes EXCEPT ![i] = 255]
         [] c = 7 /\ n > 0 -> SubSeq(bytes, 1, i - 1) \o <<x>> \o SubSeq(bytes, i, n)
         [] c = 8 /\ n > 0 -> SubSeq(bytes, 1, i - 1) \o SubSeq(bytes, i + 1, n)
         [] OTHER -> GenBlob(Mix(h, 5), Rnd(Mix(h, 6), n + 3))
=============================================================================
