------------------------------ MODULE Quantize ------------------------------
(* Rounding the parts of one quantity to whole units (largest remainder).    *)
(* A part is <<id, size>>, sizes being multiples of 1/den and of one sign.  *)
EXTENDS Base

QTrunc(x, den) == IF x < 0 THEN 0 - ((0 - x) \div den) ELSE x \div den
QFrac(x, den)  == Abs(x) % den
QSum(parts)    == SumBy(parts, LAMBDA p : p[2])
(* does part p come before part q when left-over units are handed out?      *)
QBefore(rank, den, p, q) ==
  \/ QFrac(p[2], den) > QFrac(q[2], den)
  \/ QFrac(p[2], den) = QFrac(q[2], den) /\ rank[p[1]] < rank[q[1]]
(* what is left to hand out after rounding toward zero, in 1/den            *)
QLeft(parts, den) == QSum(parts) - den * SumBy(parts, LAMBDA p : QTrunc(p[2], den))
QPlace(rank, den, parts, p) == Cardinality({ q \in parts : QBefore(rank, den, q, p) })
(* the result, {<<id, size>>} in 1/den                                      *)
Quantized(rank, den, parts) ==
  LET left == QLeft(parts, den)
      units == Abs(left) \div den
      rest  == Abs(left) % den
      sg    == IF left < 0 THEN -1 ELSE 1
  IN  { << p[1], den * QTrunc(p[2], den) + sg *
            (IF QPlace(rank, den, parts, p) < units THEN den
             ELSE IF QPlace(rank, den, parts, p) = units THEN rest ELSE 0) >> : p \in parts }
=============================================================================
