-------------------------------- MODULE ZIntTest --------------------------------
(* The value of Digest is printed once with and once without the Java overrides; *)
(* the two must agree, and Laws must hold.                                       *)
EXTENDS ZInt, TLC
RECURSIVE Lcg(_, _)
Lcg(x, n) == IF n = 0 THEN x ELSE Lcg((x * 1103 + 12345) % 65536, n - 1)
Num(k) == LET len == k % 9
              z == ZOfWords([j \in 1..len |-> IF (k + j) % 5 = 0 THEN 0
                                              ELSE IF (k * j) % 7 = 3 THEN 65535 ELSE Lcg(k * 131 + j, 3)])
          IN  IF k % 3 = 0 THEN ZNeg(z) ELSE z
N == 24
Ns == 0..N
Sh == {0, 1, 2, 14, 15, 16, 29, 30, 31, 47, 60, 75}
Digest == [a \in Ns |-> <<Num(a), [b \in Ns |-> <<ZAdd(Num(a), Num(b)), ZSub(Num(a), Num(b)), ZMul(Num(a), Num(b)), ZCmp(Num(a), Num(b))>>],
             [n \in Sh |-> <<ZShl(Num(a), n), ZShr(Num(a), n), ZRha(Num(a), n), ZRne(Num(a), n), ZDivisible(Num(a), n)>>],
             ZBits(Num(a)), ZOfInt(a * 7919 - 50000)>>]
Laws == \A a, b \in Ns : /\ ZSub(ZAdd(Num(a), Num(b)), Num(b)) = Num(a)
                         /\ ZMul(Num(a), ZAdd(Num(b), ZOne)) = ZAdd(ZMul(Num(a), Num(b)), Num(a))
                         /\ ZCmp(Num(a), Num(b)) = ZSign(ZSub(Num(a), Num(b)))
                         /\ \A n \in Sh : /\ ZShr(ZShl(Num(a), n), n) = Num(a)
                                          /\ LET q == ZShl(ZShr(Num(a), n), n) IN ZLe(q, Num(a)) /\ ZLt(ZSub(Num(a), q), ZShl(ZOne, n))
ASSUME PrintT(<<"LAWS", Laws>>)
ASSUME PrintT(<<"DIGEST", Digest>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
================================================================================
