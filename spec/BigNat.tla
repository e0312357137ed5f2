------------------------------- MODULE BigNat -------------------------------
(* Naturals beyond TLC's 32-bit integers: little-endian limbs, base 1000.   *)
(* Signed numbers are records [neg, mag].                                  *)
EXTENDS Naturals, Integers, Sequences
BASE == 1000

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE FromInt(_)
FromInt(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o FromInt(n \div BASE)

L(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == L(a, i) + L(b, i) + c IN <<t % BASE>> \o AddFrom(a, b, i + 1, t \div BASE)
Add(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF L(a, i) < L(b, i) THEN -1
                    ELSE IF L(a, i) > L(b, i) THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == CmpFrom(a, b, Max2(Len(a), Len(b)))

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - L(b, i) - c
       IN  IF t < 0 THEN <<t + BASE>> \o SubFrom(a, b, i + 1, 1) ELSE <<t>> \o SubFrom(a, b, i + 1, 0)
\* a >= b
Minus(a, b) == Trim(SubFrom(a, b, 1, 0))

RECURSIVE Conv(_, _, _, _, _)
\* sum over i+j-1 = k of a[i]*b[j]
Conv(a, b, k, i, acc) == IF i > k \/ i > Len(a) THEN acc
                         ELSE Conv(a, b, k, i + 1, acc + a[i] * L(b, k - i + 1))
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, c) ==
  IF k > Len(a) + Len(b) - 1 THEN FromInt(c)
  ELSE LET t == Conv(a, b, k, 1, 0) + c IN <<t % BASE>> \o MulFrom(a, b, k + 1, t \div BASE)
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Trim(MulFrom(a, b, 1, 0))

\* signed
S(n) == IF n < 0 THEN [neg |-> TRUE, mag |-> FromInt(-n)] ELSE [neg |-> FALSE, mag |-> FromInt(n)]
SAdd(x, y) ==
  IF x.neg = y.neg THEN [neg |-> x.neg, mag |-> Add(x.mag, y.mag)]
  ELSE LET c == Cmp(x.mag, y.mag)
       IN  IF c >= 0 THEN [neg |-> x.neg /\ c > 0, mag |-> Minus(x.mag, y.mag)]
           ELSE [neg |-> y.neg, mag |-> Minus(y.mag, x.mag)]
SNeg(x) == [neg |-> ~x.neg /\ x.mag # <<>>, mag |-> x.mag]
SMul(x, y) == LET m == Mul(x.mag, y.mag) IN [neg |-> m # <<>> /\ x.neg # y.neg, mag |-> m]
Abs(x) == x.mag

E15 == <<0, 0, 0, 0, 0, 1>>
E9 == <<0, 0, 0, 1>>

\* obs (signed, in units of 1e-15) equals num/den (num signed, den natural) within tol units of 1e-15
Close(obs, num, den, tol) ==
  Cmp(Abs(SAdd(SMul(obs, [neg |-> FALSE, mag |-> den]), SNeg(SMul(num, [neg |-> FALSE, mag |-> E15])))),
      Mul(den, FromInt(tol))) <= 0
=============================================================================
