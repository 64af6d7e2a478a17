------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  A real is the pair << hi, lo >> of signed     *)
(* 32-bit halves of an IEEE-754 binary64.  The operators below are         *)
(* placeholders that are replaced by java/Reals.java; the module override  *)
(* supplies arithmetic only, every formula of the system is written in     *)
(* TLA+ on top of it.  Operands may also be plain (small) integers.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

RInt(n) == CHOOSE r \in {} : TRUE
RFrac(n, m) == CHOOSE r \in {} : TRUE
RAdd(x, y) == CHOOSE r \in {} : TRUE
RSub(x, y) == CHOOSE r \in {} : TRUE
RMul(x, y) == CHOOSE r \in {} : TRUE
RDiv(x, y) == CHOOSE r \in {} : TRUE
RNeg(x) == CHOOSE r \in {} : TRUE
RAbs(x) == CHOOSE r \in {} : TRUE
RSqrt(x) == CHOOSE r \in {} : TRUE
RHypot(x, y) == CHOOSE r \in {} : TRUE
RSin(x) == CHOOSE r \in {} : TRUE
RCos(x) == CHOOSE r \in {} : TRUE
RAsin(x) == CHOOSE r \in {} : TRUE
RAcos(x) == CHOOSE r \in {} : TRUE
RAtan2(y, x) == CHOOSE r \in {} : TRUE
RMod(x, y) == CHOOSE r \in {} : TRUE         \* floored: sign of y
RFloor(x) == CHOOSE r \in {} : TRUE
RToInt(x) == CHOOSE r \in {} : TRUE          \* nearest integer
RPow10(n) == CHOOSE r \in {} : TRUE
RPi == CHOOSE r \in {} : TRUE
RNaN == CHOOSE r \in {} : TRUE
RIsNaN(x) == CHOOSE r \in {} : TRUE
RIsFinite(x) == CHOOSE r \in {} : TRUE
RLt(x, y) == CHOOSE r \in {} : TRUE
RLe(x, y) == CHOOSE r \in {} : TRUE
REq(x, y) == CHOOSE r \in {} : TRUE
RStr(x) == CHOOSE r \in {} : TRUE
RParse(s) == CHOOSE r \in {} : TRUE

-----------------------------------------------------------------------------
(* Derived operators, in TLA+                                              *)

RMax(x, y) == IF RLe(x, y) THEN y ELSE x
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RSign(x) == IF RLt(0, x) THEN 1 ELSE IF RLt(x, 0) THEN -1 ELSE 0
RSq(x) == RMul(x, x)
Deg2Rad(x) == RDiv(RMul(x, RPi), 180)
Rad2Deg(x) == RDiv(RMul(x, 180), RPi)
Hr2Rad(x) == RDiv(RMul(x, RPi), 12)
Rad2Hr(x) == RDiv(RMul(x, 12), RPi)
RCosD(x) == RCos(Deg2Rad(x))
RSinD(x) == RSin(Deg2Rad(x))

(* Closeness: equal up to tol, or both undefined                           *)
RClose(x, y, tol) == \/ RIsNaN(x) /\ RIsNaN(y)
                     \/ RLe(RAbs(RSub(x, y)), tol)
(* The same, with a tolerance relative to the size of the expected value   *)
RCloseRel(x, y, tol) == RClose(x, y, RMul(tol, RMax(1, RAbs(y))))
(* Closeness of two cyclic values                                          *)
RCycDist(x, y, period) ==
    LET m == RMod(RSub(x, y), period) IN RMin(m, RSub(period, m))
RCycClose(x, y, period, tol) == \/ RIsNaN(x) /\ RIsNaN(y)
                                \/ RLe(RCycDist(x, y, period), tol)
Eps(n) == RPow10(-n)
=============================================================================
