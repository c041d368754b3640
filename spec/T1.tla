---- MODULE T1 ----
EXTENDS BigNum, TLC
S == {-70000,-16385,-16384,-5,-3,-1,0,1,2,3,7,16383,16384,16385,40000}
ASSUME \A a \in S : BInt(BI(a)) = a
ASSUME \A a \in S, b \in S : BAdd(BI(a),BI(b)) = BI(a+b) /\ BSub(BI(a),BI(b)) = BI(a-b)
ASSUME \A a \in S, b \in {-5,-3,-1,0,1,2,3,7,16383,-16385} : BMul(BI(a),BI(b)) = BI(a*b)
ASSUME \A a \in S, b \in S : (BCmp(BI(a),BI(b)) = -1) <=> a < b
ASSUME \A a \in S, b \in S \ {0} : LET qr == BDivMod(BI(a),BI(b)) IN BAdd(BMul(qr[1],BI(b)),qr[2]) = BI(a) /\ BCmpMag(qr[2],BI(b)) = -1
ASSUME \A a \in S : BWrapU(BI(a),8) = BI(a % 256)
ASSUME \A a \in S : BOfSBits(BToBits(BI(a),20),1,20) = BI(a)
ASSUME \A a \in S, k \in {0,1,3,14,15} : BShr(BI(a),k) = BI(a \div Pow2(k))
ASSUME \A a \in S : BAnd(BI(a),BI(12)) = BI(((a % 16) \div 4)*4)
ASSUME PrintT(BPow2(64)) /\ PrintT(BMul(BPow2(40),BPow2(30))) /\ PrintT(BOfSBits(BToBits(BNeg(BPow2(63)),64),1,64)) /\ PrintT(BNeg(BPow2(63)))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
====
