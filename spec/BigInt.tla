------------------------------- MODULE BigInt -------------------------------
(* Unbounded integers as decimal strings.  TLC's integers are 32 bit; token   *)
(* amounts are 128 bit and fixed-point intermediates 256 bit.  The operators  *)
(* are overridden by BigInt.class (java.math.BigInteger); the definitions     *)
(* below only give their arity.  Division is floor division.                  *)
LOCAL INSTANCE TLC
BAdd(a, b) == Assert(FALSE, "BigInt override missing")
BSub(a, b) == Assert(FALSE, "BigInt override missing")
BMul(a, b) == Assert(FALSE, "BigInt override missing")
BDiv(a, b) == Assert(FALSE, "BigInt override missing")
BMod(a, b) == Assert(FALSE, "BigInt override missing")
BLt(a, b)  == Assert(FALSE, "BigInt override missing")
BLe(a, b)  == Assert(FALSE, "BigInt override missing")
BPow(a, n) == Assert(FALSE, "BigInt override missing")
\* machine integer <-> decimal string
BI(n)      == Assert(FALSE, "BigInt override missing")
ToI(a)     == Assert(FALSE, "BigInt override missing")
\* equality that is FALSE, not an error, for values of different types
Same(a, b) == Assert(FALSE, "BigInt override missing")

\* byte-wise order of strings
SLt(a, b)  == Assert(FALSE, "BigInt override missing")

BGt(a, b) == BLt(b, a)
BGe(a, b) == BLe(b, a)
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF BLe(a, b) THEN b ELSE a
\* subtraction that stops at zero
BSat(a, b) == IF BLe(a, b) THEN "0" ELSE BSub(a, b)
\* floor(a * n / d)
BMulDiv(a, n, d) == BDiv(BMul(a, n), d)
\* ceil(a * n / d)
BMulDivUp(a, n, d) == BDiv(BAdd(BMul(a, n), BSub(d, "1")), d)
U128MAX == "340282366920938463463374607431768211455"
U256MAX == "115792089237316195423570985008687907853269984665640564039457584007913129639935"
U64MAX == "18446744073709551615"
FitsU128(a) == BLe("0", a) /\ BLe(a, U128MAX)
=============================================================================
