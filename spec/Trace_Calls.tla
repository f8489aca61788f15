----------------------------- MODULE Trace_Calls ----------------------------
(* Checks recorded calls of functions that keep no state: quantizing,       *)
(* selectors, choosing among candidates.                                    *)
EXTENDS Quantize, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
RANKSEQ == JsonDeserialize(IOEnv.RANK)
rank == [ j \in { RANKSEQ[k] : k \in DOMAIN RANKSEQ } |-> Pos(RANKSEQ, j) ]

VARIABLES t, i, bad
Set(q) == { q[k] : k \in DOMAIN q }
Sub(name, ok) == IF ok THEN {} ELSE { name }
(* Parts may differ by less than 1/den: a second digit (e.fine, in units far below 1/den, too few to
   carry) decides between parts whose first digits leave equal remainders, before the shuffled order. *)
PickFine(q, j) == SumBy({ k \in DOMAIN q : q[k][1] = j }, LAMBDA k : q[k][2])
FineRank(rk, fine) == [ j \in DOMAIN rk |-> rk[j] - (IF j \in DOMAIN fine THEN 1000 * fine[j] ELSE 0) ]
Quant(e) ==
  IF e.res # "ok" THEN { "failed" } ELSE
  LET parts == Set(e.parts)
      out == Set(e.out)
      fine == [ j \in { e.parts[k][1] : k \in DOMAIN e.parts } |-> PickFine(e.fine, j) ]
      sum == SumBy(out, LAMBDA p : p[2])
      ids == { p[1] : p \in parts }
      val(j) == (CHOOSE p \in out : p[1] = j)[2]
      shape == Len(e.out) = Cardinality(parts) /\ { p[1] : p \in out } = ids /\ Cardinality(out) = Len(e.out)
  IN  IF ~ shape THEN { "parts" } ELSE
      Sub("sum", sum = QSum(parts)) \union
      Sub("unit", \A p \in parts : Abs(val(p[1]) - p[2]) < e.den) \union
      Sub("assigned", out = Quantized(FineRank(rank, fine), e.den, parts)) \union
      (* the fine digits: lost by whole units, kept together by the part that takes the rest *)
      Sub("fine", \A q \in parts : PickFine(e.outfine, q[1]) =
                    IF QPlace(FineRank(rank, fine), e.den, parts, q) = Abs(QLeft(parts, e.den)) \div e.den
                    THEN SumBy({ << j, fine[j] >> : j \in DOMAIN fine }, LAMBDA p : p[2]) ELSE 0)
Sel(e) ==
  IF e.res # "ok" THEN { "refused" } ELSE
  Sub("match", \A k \in DOMAIN e.rows : e.got[k] = SelMatch(e.ast, Set(e.rows[k]))) \union
  Sub("specificity", e.spec = SelSpec(e.ast)) \union
  Sub("roundtrip", e.again = "ok") \union
  Sub("meaning", \A k \in DOMAIN e.rows : e.again # "ok" \/ e.got2[k] = e.got[k])
Choice(e) ==
  IF e.res # "ok" THEN { "failed" } ELSE
  Sub("choice", \A k \in DOMAIN e.rows : e.got[k] = Choose1({ << e.cands[j][1], e.cands[j][2] >> : j \in DOMAIN e.cands }, Set(e.rows[k]), e.default))
Bad(e) == Sub("accepted", e.res = "err")
Same(e) ==
  (* two selector texts: equal as objects exactly when one is the other with parts reordered or repeated *)
  Sub("equality", e.eq => \A k \in DOMAIN e.rows : SelMatch(e.a, Set(e.rows[k])) = SelMatch(e.b, Set(e.rows[k]))) \union
  Sub("hash", e.eq => e.hash)
Judge(e) ==
  CASE e.op = "quant"  -> Quant(e)
    [] e.op = "sel"    -> Sel(e)
    [] e.op = "choose" -> Choice(e)
    [] e.op = "badsel" -> Bad(e)
    [] e.op = "same"   -> Same(e)

Init == t \in DOMAIN Traces /\ i = 0 /\ bad = 0
Next ==
  /\ i < Len(Traces[t].evs)
  /\ LET e == Traces[t].evs[i + 1]
         j == Judge(e)
     IN  /\ IF j = {} THEN TRUE
            ELSE PrintT("@@FAIL " \o ToJson([ t |-> t, i |-> i + 1, op |-> e.op, bad |-> j ]))
         /\ bad' = IF j = {} THEN bad ELSE bad + 1
  /\ i' = i + 1
  /\ t' = t
  /\ IF i' < Len(Traces[t].evs) THEN TRUE
     ELSE PrintT("@@DONE " \o ToJson([ t |-> t, n |-> i', bad |-> bad' ]))
View == << t, i >>
=============================================================================
