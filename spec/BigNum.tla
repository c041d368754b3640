------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* Unbounded integers.  TLC's own integers have 32 bits, while zserio      *)
(* values have up to 64 (and intermediate results of expressions more), so *)
(* the specification carries every zserio number as a sequence             *)
(*      << sign, limb_0, limb_1, ... >>                                    *)
(* sign 0/1, limbs little endian in base 2^14, no trailing zero limb, and  *)
(* zero is <<0>>.  The representation is canonical, so "=" is equality.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL INSTANCE TLC

LB == 14
BASE == 16384
P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,
        131072,262144,524288,1048576,2097152,4194304,8388608,16777216,
        33554432,67108864,134217728,268435456,536870912,1073741824>>
Pow2(k) == P2[k + 1]                         \* k in 0..30

\* MaxI / MinI avoid name clashes with other libraries
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

BZero == <<0>>
BOne == <<0, 1>>

BIsNeg(a) == a[1] = 1
BIsZero(a) == Len(a) = 1
BLimbs(a) == Len(a) - 1
BLimb(a, i) == IF i + 2 <= Len(a) THEN a[i + 2] ELSE 0     \* i from 0

\* drop high zero limbs of a limb sequence
RECURSIVE BTrim(_)
BTrim(d) == IF d = <<>> THEN d
            ELSE IF d[Len(d)] # 0 THEN d ELSE BTrim(SubSeq(d, 1, Len(d) - 1))
BMk(s, d) == LET t == BTrim(d) IN IF t = <<>> THEN BZero ELSE <<s>> \o t

RECURSIVE BNatLimbs(_)
BNatLimbs(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BNatLimbs(n \div BASE)

\* from a TLC integer (> -2^31)
BI(n) == IF n = 0 THEN BZero
         ELSE IF n < 0 THEN <<1>> \o BNatLimbs(-n) ELSE <<0>> \o BNatLimbs(n)

\* to a TLC integer; the caller guarantees |a| < 2^31
BInt(a) == LET m == FoldRight(LAMBDA x, acc : acc * BASE + x, Tail(a), 0)
           IN IF a[1] = 1 THEN -m ELSE m

BFitsInt(a) == \/ Len(a) <= 3
               \/ Len(a) = 4 /\ a[4] < 8           \* < 2^31

BNeg(a) == IF Len(a) = 1 THEN a ELSE <<1 - a[1]>> \o Tail(a)
BAbs(a) == IF a[1] = 1 THEN BNeg(a) ELSE a

\* magnitude comparison: -1, 0, 1
RECURSIVE BCmpMagAt(_, _, _)
BCmpMagAt(a, b, i) == IF i = 1 THEN 0
                      ELSE IF a[i] < b[i] THEN -1
                      ELSE IF a[i] > b[i] THEN 1
                      ELSE BCmpMagAt(a, b, i - 1)
BCmpMag(a, b) == IF Len(a) < Len(b) THEN -1
                 ELSE IF Len(a) > Len(b) THEN 1
                 ELSE BCmpMagAt(a, b, Len(a))
BCmp(a, b) == IF a[1] # b[1] THEN (IF a[1] = 1 THEN -1 ELSE 1)
              ELSE IF a[1] = 0 THEN BCmpMag(a, b) ELSE BCmpMag(b, a)
BLt(a, b) == BCmp(a, b) = -1
BLe(a, b) == BCmp(a, b) # 1

RECURSIVE BAddMagAt(_, _, _, _)
BAddMagAt(a, b, i, c) ==
    IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET x == (IF i <= Len(a) THEN a[i] ELSE 0) + (IF i <= Len(b) THEN b[i] ELSE 0) + c
         IN <<x % BASE>> \o BAddMagAt(a, b, i + 1, x \div BASE)
RECURSIVE BSubMagAt(_, _, _, _)
BSubMagAt(a, b, i, c) ==                          \* |a| >= |b|
    IF i > Len(a) THEN <<>>
    ELSE LET x == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - c
         IN <<x % BASE>> \o BSubMagAt(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)

BAdd(a, b) ==
    IF Len(a) = 1 THEN b ELSE IF Len(b) = 1 THEN a
    ELSE IF a[1] = b[1] THEN <<a[1]>> \o BAddMagAt(a, b, 2, 0)
    ELSE IF BCmpMag(a, b) >= 0 THEN BMk(a[1], BSubMagAt(a, b, 2, 0))
    ELSE BMk(b[1], BSubMagAt(b, a, 2, 0))
BSub(a, b) == BAdd(a, BNeg(b))

\* magnitude times one limb, plus shifting by limbs
RECURSIVE BMulLimbAt(_, _, _, _)
BMulLimbAt(a, m, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET x == a[i] * m + c
         IN <<x % BASE>> \o BMulLimbAt(a, m, i + 1, x \div BASE)
BMulLimb(a, m) == IF m = 0 THEN BZero ELSE BMk(0, BMulLimbAt(a, m, 2, 0))
BShlLimbs(a, k) == IF Len(a) = 1 THEN a ELSE <<a[1]>> \o [i \in 1..k |-> 0] \o Tail(a)
RECURSIVE BMulAt(_, _, _)
BMulAt(a, b, i) == IF i > Len(b) THEN BZero
                   ELSE BAdd(BShlLimbs(BMulLimb(a, b[i]), i - 2), BMulAt(a, b, i + 1))
BMul(a, b) == IF Len(a) = 1 \/ Len(b) = 1 THEN BZero
              ELSE LET m == BMulAt(BAbs(a), b, 2)
                   IN <<(a[1] + b[1]) % 2>> \o Tail(m)

\* 2^k
BPow2(k) == <<0>> \o [i \in 1..(k \div LB) |-> 0] \o <<Pow2(k % LB)>>

\* powers 0..80, tabulated
BPow2Tab == [k \in 0..80 |-> BPow2(k)]

\* bit length of a TLC natural
RECURSIVE NatBitLen(_)
NatBitLen(n) == IF n = 0 THEN 0 ELSE 1 + NatBitLen(n \div 2)
\* bit length of |a|
BBitLen(a) == IF Len(a) = 1 THEN 0 ELSE (Len(a) - 2) * LB + NatBitLen(a[Len(a)])

\* bit j (0 = least significant) of |a|
BBit(a, j) == LET i == 2 + (j \div LB)
              IN IF i > Len(a) THEN 0 ELSE (a[i] \div P2[(j % LB) + 1]) % 2

\* n bits of |a|, most significant first
BMagBits(a, n) == [i \in 1..n |-> BBit(a, n - i)]
\* n-bit two's complement, most significant first
BToBits(a, n) == IF n = 0 THEN <<>>
                 ELSE IF a[1] = 0 THEN BMagBits(a, n) ELSE BMagBits(BAdd(BPow2(n), a), n)

\* TLC integer of bits b[from..to]
NatOfBits(b, from, to) == FoldLeft(LAMBDA acc, x : 2 * acc + x, 0, SubSeq(b, from, to))
\* unsigned number of bits b[from..to]
BOfBits(b, from, to) ==
    IF to < from THEN BZero
    ELSE LET n == to - from + 1
             k == (n + LB - 1) \div LB
         IN BMk(0, [i \in 1..k |-> NatOfBits(b, MaxI(from, to - i * LB + 1), to - (i - 1) * LB)])
\* two's complement number of bits b[from..to]
BOfSBits(b, from, to) ==
    LET u == BOfBits(b, from, to)
    IN IF to < from THEN BZero
       ELSE IF b[from] = 1 THEN BSub(u, BPow2(to - from + 1)) ELSE u

\* a modulo 2^n as unsigned / as two's complement
BWrapU(a, n) == LET b == BToBits(IF a[1] = 0 THEN a
                                 ELSE BAdd(BPow2(MaxI(n, BBitLen(a)) + 1), a), n)
                IN BOfBits(b, 1, n)
BWrapS(a, n) == LET u == BWrapU(a, n) IN BOfSBits(BToBits(u, n), 1, n)

InU(a, n) == a[1] = 0 /\ BBitLen(a) <= n
InS(a, n) == IF a[1] = 0 THEN BBitLen(a) <= n - 1
             ELSE BLe(BNeg(BPow2(n - 1)), a)

\* shifts (BShr rounds towards minus infinity, as on two's complement)
BShl(a, k) == BMul(a, BPow2(k))
BShrMag(a, k) == LET n == BBitLen(a) IN
                 IF n <= k THEN BZero ELSE BOfBits(BMagBits(a, n), 1, n - k)
BShr(a, k) == IF a[1] = 0 THEN BShrMag(a, k)
              ELSE BNeg(BAdd(BShrMag(BSub(BNeg(a), BOne), k), BOne))

\* bitwise operators on (infinite) two's complement
BBitwise(a, b, Op(_, _)) ==
    LET n == MaxI(BBitLen(a), BBitLen(b)) + 2
        x == BToBits(a, n)
        y == BToBits(b, n)
    IN BOfSBits([i \in 1..n |-> Op(x[i], y[i])], 1, n)
BAnd(a, b) == BBitwise(a, b, LAMBDA x, y : x * y)
BOr(a, b)  == BBitwise(a, b, LAMBDA x, y : MaxI(x, y))
BXor(a, b) == BBitwise(a, b, LAMBDA x, y : (x + y) % 2)
BNot(a) == BSub(BNeg(a), BOne)

\* truncating division of magnitudes, by bits
RECURSIVE BDivBits(_, _, _, _)
BDivBits(a, b, j, r) ==          \* quotient bits of |a| from bit j down, remainder so far r
    IF j < 0 THEN <<<<>>, r>>
    ELSE LET r2 == BAdd(BAdd(r, r), IF BBit(a, j) = 1 THEN BOne ELSE BZero)
             q  == IF BCmpMag(r2, b) >= 0 THEN 1 ELSE 0
             rest == BDivBits(a, b, j - 1, IF q = 1 THEN BSub(r2, BAbs(b)) ELSE r2)
         IN <<<<q>> \o rest[1], rest[2]>>
BDivMod(a, b) ==
    LET qr == BDivBits(a, BAbs(b), BBitLen(a) - 1, BZero)
        q  == BOfBits(qr[1], 1, Len(qr[1]))
    IN << IF a[1] # b[1] THEN BNeg(q) ELSE q,
          IF a[1] = 1 THEN BNeg(qr[2]) ELSE qr[2] >>
BDiv(a, b) == BDivMod(a, b)[1]
BMod(a, b) == BDivMod(a, b)[2]

\* number of bits needed for n distinct values
BNumBits(n) == IF BIsZero(n) THEN 0 ELSE IF n = BOne THEN 1 ELSE BBitLen(BSub(n, BOne))
=============================================================================
