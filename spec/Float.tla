-------------------------------- MODULE Float --------------------------------
(***************************************************************************)
(* The floating point numbers of schema expressions: finite values         *)
(* [s, m, e] = (-1)^s * m * 2^e with a BigNum m >= 0, calculated as IEEE   *)
(* binary64 does, rounding to nearest, ties to even.  Not modelled, and    *)
(* hence undefined: infinities, NaN, overflow, and rounding in the         *)
(* subnormal range.                                                        *)
(***************************************************************************)
EXTENDS BigNum

FUndef == [s |-> -1, m |-> BZero, e |-> 0]
FIsUndef(x) == x.s = -1
FZero(s) == [s |-> s, m |-> BZero, e |-> 0]
FIsZero(x) == BIsZero(x.m)

\* one representation for each value: m is odd
RECURSIVE FTrim(_, _)
FTrim(m, k) == IF BBit(m, k) = 1 THEN k ELSE FTrim(m, k + 1)
FNorm(s, m, e) == IF BIsZero(m) THEN FZero(s)
                  ELSE LET k == FTrim(m, 0) IN [s |-> s, m |-> IF k = 0 THEN m ELSE BShrMag(m, k), e |-> e + k]

\* the nearest number with p bits; more: the true magnitude is a little above m
FRound(s, m, e, more, p) ==
    LET k == BBitLen(m) - p IN
    IF k <= 0 THEN FNorm(s, m, e)
    ELSE LET q == BShrMag(m, k)
             c == BCmp(BSub(m, BShl(q, k)), BPow2(k - 1))
             up == c = 1 \/ (c = 0 /\ (more \/ BBit(q, 0) = 1))
         IN FNorm(s, IF up THEN BAdd(q, BOne) ELSE q, e + k)
\* within the normal range of a format with these exponent bounds
FIn(x, lo, hi) == FIsZero(x) \/ LET t == BBitLen(x.m) + x.e - 1 IN t >= lo /\ t <= hi
F64(s, m, e, more) == LET x == FRound(s, m, e, more, 53) IN IF FIn(x, -1022, 1023) THEN x ELSE FUndef

FOfInt(b) == F64(b[1], BAbs(b), 0, FALSE)
FSigned(x, e) == LET m == BShl(x.m, x.e - e) IN IF x.s = 1 THEN BNeg(m) ELSE m
FFar(x, y) == ~FIsZero(x) /\ ~FIsZero(y) /\ (x.e - y.e > 400 \/ y.e - x.e > 400)

FNeg(x) == [x EXCEPT !.s = 1 - x.s]
FAdd(x, y) ==
    IF FIsZero(x) THEN (IF FIsZero(y) THEN FZero(MinI(x.s, y.s)) ELSE y)
    ELSE IF FIsZero(y) THEN x
    ELSE IF FFar(x, y) THEN FUndef
    ELSE LET e == MinI(x.e, y.e)
             n == BAdd(FSigned(x, e), FSigned(y, e))
         IN IF BIsZero(n) THEN FZero(0) ELSE F64(n[1], BAbs(n), e, FALSE)
FSub(x, y) == FAdd(x, FNeg(y))
FMul(x, y) == F64((x.s + y.s) % 2, BMul(x.m, y.m), x.e + y.e, FALSE)
FDiv(x, y) ==
    IF FIsZero(y) THEN FUndef
    ELSE LET s == (x.s + y.s) % 2
             k == MaxI(0, BBitLen(y.m) - BBitLen(x.m)) + 60
             qr == BDivMod(BShl(x.m, k), y.m)
         IN IF FIsZero(x) THEN FZero(s) ELSE F64(s, qr[1], x.e - y.e - k, ~BIsZero(qr[2]))
\* -1, 0 or 1; -2 if not decided
FCmp(x, y) ==
    IF FIsZero(x) /\ FIsZero(y) THEN 0
    ELSE IF FIsZero(x) THEN (IF y.s = 1 THEN 1 ELSE -1)
    ELSE IF FIsZero(y) \/ x.s # y.s THEN (IF x.s = 1 THEN -1 ELSE 1)
    ELSE IF FFar(x, y) THEN -2
    ELSE LET e == MinI(x.e, y.e) IN BCmp(FSigned(x, e), FSigned(y, e))

\* patterns: ew exponent bits, mw mantissa bits
FBias(ew) == Pow2(ew - 1) - 1
FOfPattern(v, ew, mw) ==
    LET b == BToBits(v, 1 + ew + mw)
        x == NatOfBits(b, 2, 1 + ew)
        m == BOfBits(b, 2 + ew, 1 + ew + mw)
    IN IF x = Pow2(ew) - 1 THEN FUndef
       ELSE IF x = 0 THEN FNorm(b[1], m, 1 - FBias(ew) - mw)
       ELSE FNorm(b[1], BAdd(m, BPow2(mw)), x - FBias(ew) - mw)
\* the nearest number of the format; << >> if that is not modelled
FPattern(x, ew, mw) ==
    IF FIsUndef(x) THEN <<>>
    ELSE LET y == FRound(x.s, x.m, x.e, FALSE, mw + 1)
             t == BBitLen(y.m) + y.e - 1
             bits(n, w) == [i \in 1..w |-> (n \div Pow2(w - i)) % 2]
         IN IF ~FIn(y, 1 - FBias(ew), FBias(ew)) THEN <<>>
            ELSE << BOfBits(<<y.s>> \o (IF FIsZero(y) THEN [i \in 1..(ew + mw) |-> 0]
                            ELSE bits(t + FBias(ew), ew) \o Tail(BMagBits(BShl(y.m, mw + 1 - BBitLen(y.m)), mw + 1))),
                    1, 1 + ew + mw) >>
=============================================================================
