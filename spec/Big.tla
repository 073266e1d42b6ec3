-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Exact integers of any size on top of TLC's 32-bit integers.             *)
(*                                                                         *)
(* A big integer is a sequence of signed limbs, little endian, in base     *)
(* 10^4:  value(a) = a[1] + a[2] * 10^4 + a[3] * 10^8 + ...                *)
(* The normal form has every limb in 0..9999 except the last, which        *)
(* carries the sign (-9999..9999) and is not 0 unless the value is 0.      *)
(* Rationals are compared by cross multiplication, physical quantities are *)
(* recorded as big integers of a fixed number of decimals, so that no      *)
(* check ever relies on floating point or overflows.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL B == 10000

LOCAL Carry(acc, x) ==
    LET s == acc.c + x IN [c |-> s \div B, d |-> Append(acc.d, s % B)]

RECURSIVE BStrip(_)
BStrip(s) ==
    IF Len(s) <= 1 THEN s
    ELSE IF s[Len(s)] = 0 THEN BStrip(SubSeq(s, 1, Len(s) - 1))
    ELSE IF s[Len(s)] = -1
         THEN BStrip(Append(SubSeq(s, 1, Len(s) - 2), s[Len(s) - 1] - B))
    ELSE s

(* Normal form of any sequence of limbs (|limb| < 2 * 10^9) *)
BNorm(a) ==
    LET r == FoldLeft(Carry, [c |-> 0, d |-> <<>>], a)
    IN  BStrip(r.d \o << r.c % B, (r.c \div B) % B, (r.c \div B) \div B >>)

BInt(i) == BNorm(<<i>>)
BZero == <<0>>

LOCAL Limb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
LOCAL Max2(x, y) == IF x >= y THEN x ELSE y

(* Limbwise sum without carrying: at most 10^5 of them may be chained *)
BAddLazy(a, b) == [k \in 1..Max2(Len(a), Len(b)) |-> Limb(a, k) + Limb(b, k)]
BAdd(a, b) == BNorm(BAddLazy(a, b))
BNeg(a) == BNorm([k \in 1..Len(a) |-> -a[k]])
BSub(a, b) ==
    BNorm([k \in 1..Max2(Len(a), Len(b)) |-> Limb(a, k) - Limb(b, k)])

BSumSeq(s) == BNorm(FoldLeft(BAddLazy, BZero, s))

(* Product; both operands in normal form, at most 20 limbs in the shorter *)
BMul(a, b) ==
    LET x == IF Len(a) <= Len(b) THEN a ELSE b
        y == IF Len(a) <= Len(b) THEN b ELSE a
        Row(i) == [k \in 1..(Len(y) + i - 1) |->
                      IF k >= i THEN x[i] * y[k - i + 1] ELSE 0]
    IN  IF Len(x) = 1
        THEN BNorm([k \in 1..Len(y) |-> x[1] * y[k]])
        ELSE BNorm(FoldLeft(LAMBDA acc, i : BAddLazy(acc, Row(i)),
                            BZero, [i \in 1..Len(x) |-> i]))

BMulI(a, i) == BMul(a, BInt(i))

BNegative(a) == LET n == BNorm(a) IN n[Len(n)] < 0
BIsZero(a) == BNorm(a) = BZero
BLeq(a, b) == ~BNegative(BSub(b, a))
BLt(a, b) == BNegative(BSub(a, b))
BAbs(a) == IF BNegative(a) THEN BNeg(a) ELSE BNorm(a)
BNear(a, b, tol) == BLeq(BAbs(BSub(a, b)), tol)
BEq(a, b) == BIsZero(BSub(a, b))
BMax(a, b) == IF BLeq(a, b) THEN b ELSE a
BMin(a, b) == IF BLeq(a, b) THEN a ELSE b

(* 10^n as a big integer *)
RECURSIVE BPow10(_)
BPow10(n) == IF n = 0 THEN <<1>> ELSE IF n < 4 THEN BMulI(BPow10(n - 1), 10)
             ELSE <<0>> \o BPow10(n - 4)

(* The value as a TLC integer, for values known to be small *)
BToInt(a) == FoldRight(LAMBDA x, acc : acc * B + x, BNorm(a), 0)
=============================================================================
