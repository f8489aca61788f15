------------------------------ MODULE MC_Quant ------------------------------
(* Quantizing as a process that hands out one unit at a time, explored for  *)
(* every small set of parts.  At its end it agrees with Quantized.          *)
EXTENDS Quantize, Json, IOUtils

RANKSEQ == JsonDeserialize(IOEnv.RANK)
MAXP == atoi(IOEnv.MAXP)     \* greatest part, in 1/DEN
NPARTS == atoi(IOEnv.NPARTS)
DEN == 4
IDS == { 0, 1, 2, 3, 5 }
rank == [ j \in IDS |-> Pos(RANKSEQ, j) ]

VARIABLES parts, sign, got, left
vars == << parts, sign, got, left >>

Assign == UNION { [ S -> 0..MAXP ] : S \in { T \in SUBSET IDS : Cardinality(T) \in 1..NPARTS } }
Init == /\ sign \in { 1, -1 }
        /\ \E f \in Assign : parts = { << j, sign * f[j] >> : j \in DOMAIN f }
        /\ got = { << p[1], DEN * QTrunc(p[2], DEN) >> : p \in parts }
        /\ left = QLeft(parts, DEN)
Fresh == { p \in parts : << p[1], DEN * QTrunc(p[2], DEN) >> \in got }
Give ==
  /\ left # 0
  /\ LET open == { p \in parts : \E x \in got : x[1] = p[1] /\ x[2] = DEN * QTrunc(p[2], DEN) }
         best == CHOOSE p \in open : \A q \in open : p = q \/ QBefore(rank, DEN, p, q)
         amt  == IF Abs(left) >= DEN THEN DEN * sign ELSE left
     IN  /\ got' = { IF x[1] = best[1] THEN << x[1], x[2] + amt >> ELSE x : x \in got }
         /\ left' = left - amt
  /\ UNCHANGED << parts, sign >>
Next == Give
Conserved == QSum(got) + left = QSum(parts)
WithinOne == \A x \in got : \A p \in parts : x[1] = p[1] => Abs(x[2] - p[2]) < DEN
Total == \A p, q \in parts : p # q => (QBefore(rank, DEN, p, q) # QBefore(rank, DEN, q, p))
WholeParts == (left = 0 /\ QSum(parts) % DEN = 0) => \A x \in got : x[2] % DEN = 0
Largest == left = 0 =>
  \A p, q \in parts : QFrac(p[2], DEN) > QFrac(q[2], DEN) =>
     LET val(r) == (CHOOSE x \in got : x[1] = r[1])[2]
         up(r) == Abs(val(r)) - DEN * Abs(QTrunc(r[2], DEN))
     IN  up(p) >= up(q)
Agrees1 == left = 0 => got = Quantized(rank, DEN, parts)
Inv == Conserved /\ WithinOne /\ Total /\ WholeParts /\ Largest /\ Agrees1
Emit == IF left = 0 /\ IOEnv.EMIT = "1" THEN PrintT("@@C " \o ToJson([ p |-> parts, den |-> DEN ])) ELSE TRUE
=============================================================================
