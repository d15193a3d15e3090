-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Extended real numbers for the specification.                            *)
(*                                                                         *)
(* A number is a string: "n" or "n/d" (lowest terms, d > 1), or one of     *)
(* "inf", "-inf", "nan".  TLC's integers have 32 bits and it has no reals; *)
(* this module plays for real numbers the part Naturals.class plays for    *)
(* integers: the operators below are given their meaning in comments and   *)
(* are evaluated by java/vp/NumOverrides.java.                             *)
(*                                                                         *)
(* NAdd..NDiv, comparisons and NOfInt are EXACT on finite operands (values *)
(* whose exact form would exceed 4000 bits are rounded to 400 significant  *)
(* bits).  NExp, NLog, NSqrt are correct to 45 decimal digits; NExp is     *)
(* "inf" above 709.7827 and "0" below -760, the range of a double.         *)
(* Infinities and NaN follow IEEE 754; x/0 is +-inf or nan.                *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

NOfInt(i)  == CHOOSE v \in STRING : TRUE     \* the integer i as a number
NAdd(a, b) == CHOOSE v \in STRING : TRUE     \* a + b
NSub(a, b) == CHOOSE v \in STRING : TRUE     \* a - b
NMul(a, b) == CHOOSE v \in STRING : TRUE     \* a * b
NDiv(a, b) == CHOOSE v \in STRING : TRUE     \* a / b
NNeg(a)    == CHOOSE v \in STRING : TRUE     \* -a
NAbs(a)    == CHOOSE v \in STRING : TRUE     \* |a|
NExp(a)    == CHOOSE v \in STRING : TRUE     \* e^a
NLog(a)    == CHOOSE v \in STRING : TRUE     \* ln a; -inf at 0, nan below
NSqrt(a)   == CHOOSE v \in STRING : TRUE     \* square root
NPi        == CHOOSE v \in STRING : TRUE     \* pi to 45 digits
NLe(a, b)  == CHOOSE v \in BOOLEAN : TRUE    \* a <= b (FALSE if either is nan)
NLt(a, b)  == CHOOSE v \in BOOLEAN : TRUE    \* a <  b (FALSE if either is nan)
NEq(a, b)  == CHOOSE v \in BOOLEAN : TRUE    \* a =  b (FALSE if either is nan)
NIsNan(a)  == CHOOSE v \in BOOLEAN : TRUE
(* both nan, or equal, or |a - b| <= abs + rel * max(|a|, |b|)            *)
NClose(a, b, rel, abs) == CHOOSE v \in BOOLEAN : TRUE
(* sum of a sequence / dot product of two sequences (shorter length)      *)
NSum(s)    == CHOOSE v \in STRING : TRUE
NDot(s, t) == CHOOSE v \in STRING : TRUE
(* a multiple of 2^-16 of magnitude at most 2^8: products of two such      *)
(* numbers, and sums of 32 such products, are exact in double precision,   *)
(* in any order of evaluation                                              *)
NGrid(a)   == CHOOSE v \in BOOLEAN : TRUE
=============================================================================
