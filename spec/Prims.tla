------------------------------- MODULE Prims --------------------------------
(***************************************************************************)
(* The built-in types of zserio: which values each type has, the bits that *)
(* represent a value, and the inverse.                                     *)
(*                                                                         *)
(* A built-in type is one of                                               *)
(*    [p |-> "uint", n |-> width]      uint8..uint64, bit:N                *)
(*    [p |-> "sint", n |-> width]      int8..int64, int:N                  *)
(*    [p |-> "varu", m |-> maxbytes]   varuint16 (2) 32 (4) 64 (8), varuint (9) *)
(*    [p |-> "vars", m |-> maxbytes]   varint16 (2) 32 (4) 64 (8), varint (9)   *)
(*    [p |-> "varsize"] [p |-> "bool"] [p |-> "f16"] [p |-> "f32"]         *)
(*    [p |-> "f64"] [p |-> "str"] [p |-> "bytes"] [p |-> "extern"]         *)
(*                                                                         *)
(* Values: numbers (BigNum); booleans; floats by their IEEE bit pattern    *)
(* (f16 fields have f32 values in the API, hence a 32-bit pattern);        *)
(* strings as their UTF-8 bytes; bytes/extern as [n |-> declared size,     *)
(* b |-> byte sequence].  Bit strings are sequences of 0/1.                *)
(***************************************************************************)
EXTENDS BigNum, TLC

\* ------------------------------------------------------------ bit strings
ByteBits(x) == [i \in 1..8 |-> (x \div P2[9 - i]) % 2]
BytesBits(bs) == [i \in 1..(8 * Len(bs)) |-> (bs[((i - 1) \div 8) + 1] \div P2[8 - ((i - 1) % 8)]) % 2]
\* the bits padded with zeros to whole bytes
BitsBytes(b) == LET n == (Len(b) + 7) \div 8
                    bit(i) == IF i <= Len(b) THEN b[i] ELSE 0
                IN [k \in 1..n |-> LET o == 8 * (k - 1) IN
                      128 * bit(o+1) + 64 * bit(o+2) + 32 * bit(o+3) + 16 * bit(o+4)
                      + 8 * bit(o+5) + 4 * bit(o+6) + 2 * bit(o+7) + bit(o+8)]
Zeros(n) == [i \in 1..n |-> 0]
\* padding from bit position pos to the next multiple of al
PadTo(pos, al) == (al - (pos % al)) % al

Ok(v, pos) == [ok |-> TRUE, v |-> v, pos |-> pos]
Fail(why) == [ok |-> FALSE, err |-> why]

MAXSIZE == BSub(BPow2(31), BOne)          \* the largest size zserio knows
INT64MIN == BNeg(BPow2(63))

\* -------------------------------------------------- variable-length numbers
\* payload bits of a k-byte form of a variable-length type with at most m bytes
VarPayload(sg, m, k) ==
    IF sg THEN (IF k = 1 THEN 6 ELSE IF k < m THEN 6 + 7 * (k - 1) ELSE 6 + 7 * (m - 2) + 8)
          ELSE (IF k < m THEN 7 * k ELSE 7 * (m - 1) + 8)
VarInRange(sg, m, v) ==
    \/ (sg \/ v[1] = 0) /\ BBitLen(v) <= VarPayload(sg, m, m)
    \/ sg /\ m = 9 /\ v = INT64MIN         \* the extra value: stored as "minus zero"
\* the shortest form that holds v
RECURSIVE VarBytesFrom(_, _, _, _)
VarBytesFrom(sg, m, n, k) == IF n <= VarPayload(sg, m, k) THEN k ELSE VarBytesFrom(sg, m, n, k + 1)
VarBytes(sg, m, v) == IF sg /\ m = 9 /\ v = INT64MIN THEN 1
                      ELSE VarBytesFrom(sg, m, BBitLen(v), 1)
\* v in a form of exactly k bytes
VarEncK(sg, m, v, k) ==
    LET pb == VarPayload(sg, m, k)
        mag == BMagBits(v, pb)
        \* payload width of byte i
        w(i) == IF i = k /\ k = m THEN 8 ELSE IF i = 1 /\ sg THEN 6 ELSE 7
        from(i) == IF i = 1 THEN 1 ELSE w(1) + 7 * (i - 2) + 1
        byte(i) == (IF i = 1 /\ sg THEN <<v[1]>> ELSE <<>>)
                   \o (IF i = k /\ k = m THEN <<>> ELSE IF i = k THEN <<0>> ELSE <<1>>)
                   \o SubSeq(mag, from(i), from(i) + w(i) - 1)
    IN FlattenSeq([i \in 1..k |-> byte(i)])
VarEnc(sg, m, v) == IF sg /\ m = 9 /\ v = INT64MIN THEN <<1,0,0,0,0,0,0,0>>
                    ELSE VarEncK(sg, m, v, VarBytes(sg, m, v))

\* number of bytes the form starting at pos has (0: data ends)
RECURSIVE VarFormLen(_, _, _, _, _)
VarFormLen(sg, m, b, pos, i) ==
    IF pos + 8 * i > Len(b) THEN 0
    ELSE IF i = m THEN m
    ELSE LET more == b[pos + 8 * (i - 1) + (IF i = 1 /\ sg THEN 2 ELSE 1)]
         IN IF more = 0 THEN i ELSE VarFormLen(sg, m, b, pos, i + 1)
VarDec(sg, m, b, pos) ==
    LET k == VarFormLen(sg, m, b, pos, 1)
        w(i) == IF i = k /\ k = m THEN 8 ELSE IF i = 1 /\ sg THEN 6 ELSE 7
        bits == FlattenSeq([i \in 1..k |-> SubSeq(b, pos + 8 * i - w(i) + 1, pos + 8 * i)])
        mag == BOfBits(bits, 1, Len(bits))
    IN IF k = 0 THEN Fail("eof")
       ELSE IF ~sg THEN Ok(mag, pos + 8 * k)
       ELSE IF b[pos + 1] = 0 THEN Ok(mag, pos + 8 * k)
       ELSE IF m = 9 /\ k = 1 /\ BIsZero(mag) THEN Ok(INT64MIN, pos + 8)
       ELSE Ok(BNeg(mag), pos + 8 * k)

SizeEnc(n) == VarEnc(FALSE, 5, n)
SizeDec(b, pos) == LET r == VarDec(FALSE, 5, b, pos) IN
                   IF ~r.ok THEN r
                   ELSE IF BLt(MAXSIZE, r.v) THEN Fail("size") ELSE r

\* ------------------------------------------------------------------ float16
\* f32 pattern -> f16 bits, IEEE round to nearest, ties to even
F16Bits(v) ==
    LET b == BToBits(v, 32)
        e == NatOfBits(b, 2, 9)
        m == NatOfBits(b, 10, 32)
        he == e - 112                      \* exponent rebiased for binary16
        nat15(x) == [i \in 1..15 |-> (x \div P2[16 - i]) % 2]
        \* rounding x / 2^k to nearest even
        rne(x, k) == LET q == x \div Pow2(k)
                         r == x % Pow2(k)
                         h == Pow2(k - 1)
                     IN IF r > h \/ (r = h /\ q % 2 = 1) THEN q + 1 ELSE q
    IN <<b[1]>> \o nat15(
        IF e = 255 THEN (IF m = 0 THEN 31744 ELSE 32256 + ((m \div 8192) % 512))
        ELSE IF he >= 31 THEN 31744
        ELSE IF he <= 0 THEN (IF 14 - he > 24 THEN 0 ELSE rne(m + Pow2(23), 14 - he))
        ELSE rne(he * Pow2(23) + m, 13))   \* a carry out of the mantissa bumps the exponent
\* f16 bits -> f32 pattern
RECURSIVE F16Norm(_, _)
F16Norm(m, e) == IF m >= 1024 THEN <<m - 1024, e>> ELSE F16Norm(2 * m, e - 1)
F32OfF16(b, pos) ==
    LET s == b[pos + 1]
        e == NatOfBits(b, pos + 2, pos + 6)
        m == NatOfBits(b, pos + 7, pos + 16)
        mk(ee, mm) == BOfBits(<<s>> \o [i \in 1..8 |-> (ee \div P2[9 - i]) % 2]
                              \o [i \in 1..23 |-> (mm \div P2[24 - i]) % 2], 1, 32)
    IN IF e = 31 THEN (IF m = 0 THEN mk(255, 0) ELSE mk(255, 4194304 + (m % 512) * 8192))
       ELSE IF e > 0 THEN mk(e + 112, m * 8192)
       ELSE IF m = 0 THEN mk(0, 0)
       ELSE LET nm == F16Norm(m, 113) IN mk(nm[2], nm[1] * 8192)

\* -------------------------------------------------------------------- UTF-8
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
    IF i > Len(s) THEN TRUE
    ELSE LET c == s[i]
             cont(k) == i + k <= Len(s) /\ s[i + k] \in 128..191
         IN IF c < 128 THEN Utf8From(s, i + 1)
            ELSE IF c \in 194..223 THEN cont(1) /\ Utf8From(s, i + 2)
            ELSE IF c \in 224..239
                 THEN /\ cont(1) /\ cont(2)
                      /\ (c = 224 => s[i + 1] >= 160)
                      /\ (c = 237 => s[i + 1] <= 159)
                      /\ Utf8From(s, i + 3)
            ELSE IF c \in 240..244
                 THEN /\ cont(1) /\ cont(2) /\ cont(3)
                      /\ (c = 240 => s[i + 1] >= 144)
                      /\ (c = 244 => s[i + 1] <= 143)
                      /\ Utf8From(s, i + 4)
            ELSE FALSE
IsUtf8(s) == Utf8From(s, 1)

\* ------------------------------------------------------------- blob values
ExternBits(v, n) == SubSeq(BytesBits(v.b), 1, n)
BytesOk(v) == BLe(v.n, MAXSIZE) /\ v.n = BI(Len(v.b))
\* the bits beyond the declared size must not carry information: they are not stored
ExternOk(v) == /\ BLe(v.n, MAXSIZE)
               /\ BInt(v.n) <= 8 * Len(v.b) /\ 8 * Len(v.b) - BInt(v.n) < 8
ExternClean(v) == LET b == BytesBits(v.b) IN
                  \A i \in (BInt(v.n) + 1)..Len(b) : b[i] = 0

\* --------------------------------------------------------------- the types
IsNumPrim(t) == t.p \in {"uint", "sint", "varu", "vars", "varsize"}
IsSignedPrim(t) == t.p \in {"sint", "vars"}

\* is v a value of t that can be written?
PrimOk(t, v) ==
    CASE t.p = "uint" -> InU(v, t.n)
      [] t.p = "sint" -> InS(v, t.n)
      [] t.p = "varu" -> VarInRange(FALSE, t.m, v)
      [] t.p = "vars" -> VarInRange(TRUE, t.m, v)
      [] t.p = "varsize" -> v[1] = 0 /\ BLe(v, MAXSIZE)
      [] t.p = "bytes" -> BytesOk(v)
      [] t.p = "extern" -> ExternOk(v)
      [] t.p = "str" -> BLe(BI(Len(v)), MAXSIZE)
      [] OTHER -> TRUE

PrimEnc(t, v) ==
    CASE t.p = "uint" -> BMagBits(v, t.n)
      [] t.p = "sint" -> BToBits(v, t.n)
      [] t.p = "varu" -> VarEnc(FALSE, t.m, v)
      [] t.p = "vars" -> VarEnc(TRUE, t.m, v)
      [] t.p = "varsize" -> SizeEnc(v)
      [] t.p = "bool" -> IF v THEN <<1>> ELSE <<0>>
      [] t.p = "f16" -> F16Bits(v)
      [] t.p = "f32" -> BMagBits(v, 32)
      [] t.p = "f64" -> BMagBits(v, 64)
      [] t.p = "str" -> SizeEnc(BI(Len(v))) \o BytesBits(v)
      [] t.p = "bytes" -> SizeEnc(v.n) \o BytesBits(v.b)
      [] t.p = "extern" -> SizeEnc(v.n) \o ExternBits(v, BInt(v.n))

\* the value a reader obtains for v (floats are rounded to the wire precision,
\* unused bits of an extern's last byte are cleared)
PrimCanon(t, v) ==
    CASE t.p = "f16" -> F32OfF16(F16Bits(v), 0)
      [] t.p = "extern" -> [n |-> v.n, b |-> BitsBytes(ExternBits(v, BInt(v.n)))]
      [] OTHER -> v

PrimDec(t, b, pos) ==
    LET left == Len(b) - pos
        fixed(n, v) == IF n > left THEN Fail("eof") ELSE Ok(v, pos + n)
        bytesAt(p, k) == [i \in 1..k |-> NatOfBits(b, p + 8 * i - 7, p + 8 * i)]
    IN
    CASE t.p = "uint" -> IF t.n > left THEN Fail("eof") ELSE Ok(BOfBits(b, pos + 1, pos + t.n), pos + t.n)
      [] t.p = "sint" -> IF t.n > left THEN Fail("eof") ELSE Ok(BOfSBits(b, pos + 1, pos + t.n), pos + t.n)
      [] t.p = "varu" -> VarDec(FALSE, t.m, b, pos)
      [] t.p = "vars" -> VarDec(TRUE, t.m, b, pos)
      [] t.p = "varsize" -> SizeDec(b, pos)
      [] t.p = "bool" -> IF left < 1 THEN Fail("eof") ELSE Ok(b[pos + 1] = 1, pos + 1)
      [] t.p = "f16" -> IF left < 16 THEN Fail("eof") ELSE Ok(F32OfF16(b, pos), pos + 16)
      [] t.p = "f32" -> IF left < 32 THEN Fail("eof") ELSE Ok(BOfBits(b, pos + 1, pos + 32), pos + 32)
      [] t.p = "f64" -> IF left < 64 THEN Fail("eof") ELSE Ok(BOfBits(b, pos + 1, pos + 64), pos + 64)
      [] t.p = "str" ->
           LET r == SizeDec(b, pos) IN
           IF ~r.ok THEN r
           ELSE IF BLt(BI((Len(b) - r.pos) \div 8), r.v) THEN Fail("eof")
           ELSE LET k == BInt(r.v)
                    s == bytesAt(r.pos, k)
                IN IF IsUtf8(s) THEN Ok(s, r.pos + 8 * k) ELSE Fail("utf8")
      [] t.p = "bytes" ->
           LET r == SizeDec(b, pos) IN
           IF ~r.ok THEN r
           ELSE IF BLt(BI((Len(b) - r.pos) \div 8), r.v) THEN Fail("eof")
           ELSE LET k == BInt(r.v) IN Ok([n |-> r.v, b |-> bytesAt(r.pos, k)], r.pos + 8 * k)
      [] t.p = "extern" ->
           LET r == SizeDec(b, pos) IN
           IF ~r.ok THEN r
           ELSE IF BLt(BI(Len(b) - r.pos), r.v) THEN Fail("eof")
           ELSE LET k == BInt(r.v) IN
                Ok([n |-> r.v, b |-> BitsBytes(SubSeq(b, r.pos + 1, r.pos + k))], r.pos + k)
=============================================================================
