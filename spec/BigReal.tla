------------------------------ MODULE BigReal ------------------------------
(***************************************************************************)
(* Real arithmetic for the numeric parts of the SERPENT specification.     *)
(*                                                                         *)
(* TLC does not evaluate the standard Reals module.  The operators below   *)
(* are the ordinary real-number operators; /verif/spec/BigReal.java        *)
(* overrides them (in the way TLC itself overrides Naturals) with          *)
(* arithmetic on decimal numbers of 45 significant digits.  An operand is  *)
(* an integer, a real produced by one of these operators, or a string      *)
(* holding a decimal literal - which is how the harness logs a double      *)
(* ("%.17g") - and may also be a value that is not a number ("nan",        *)
(* "inf", "-inf"): arithmetic on it gives not-a-number, and every          *)
(* comparison with it is FALSE.                                            *)
(***************************************************************************)
EXTENDS Integers

RReal(x)      == CHOOSE r : r = x        \* x as a real
RFinite(x)    == TRUE                    \* x is a (finite) number
RAdd(x, y)    == x + y
RSub(x, y)    == x - y
RMul(x, y)    == x * y
RDiv(x, y)    == CHOOSE r : RMul(r, y) = x
RNeg(x)       == 0 - x
RLeq(x, y)    == x <= y
RLt(x, y)     == x < y
REq(x, y)     == x = y
RSqrt(x)      == CHOOSE r : RMul(r, r) = x
RAbs(x)       == IF RLt(x, 0) THEN RNeg(x) ELSE x
RSin(x)       == CHOOSE r : TRUE
RCos(x)       == CHOOSE r : TRUE
RAtan2(y, x)  == CHOOSE r : TRUE         \* in (-pi, pi]
RAcos(x)      == CHOOSE r : TRUE         \* in [0, pi]
RPi(x)        == CHOOSE r : TRUE         \* pi times x
RFloor(x)     == CHOOSE n : TRUE         \* an integer
RTrunc(x)     == CHOOSE n : TRUE         \* rounded towards zero, a real
RStr(x)       == CHOOSE s : TRUE         \* printable
RMax(x, y)    == IF RLeq(x, y) THEN y ELSE x
RMin(x, y)    == IF RLeq(x, y) THEN x ELSE y
\* Sequence-level operators (definitions by recursion, overridden for speed)
RSum(s)       == CHOOSE r : TRUE         \* sum of the elements of sequence s
RDot(s, t)    == CHOOSE r : TRUE         \* sum of s[i]*t[i]
RMatMul(A, B) == CHOOSE M : TRUE         \* matrices are sequences of rows
RMatInv(A)    == CHOOSE M : TRUE         \* inverse (or <<>> when singular)
\* |x - y| <= tol * (1 + |y|), FALSE when x or y is not a number
RNear(x, y, tol) == RLeq(RAbs(RSub(x, y)), RMul(tol, RAdd(1, RAbs(y))))
=============================================================================
