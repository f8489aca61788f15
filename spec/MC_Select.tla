------------------------------ MODULE MC_Select ------------------------------
(* Every small selector against every small row, and every small choice.    *)
(* Each state is one question; its answer is checked here for the general   *)
(* laws and printed to be asked of the code.                                *)
EXTENDS Base, Json, IOUtils

EMIT == IOEnv.EMIT = "1"
VALSET == { "", "x", "xy", "x-y", "y x", "X" }
Rows == { { << "a", v >>, << "b", w >> } : v \in VALSET, w \in { "", "x" } }
Simple == { << "s", "a", "", "", "" >>, << "s", "b", "", "", "" >> } \union
          { << "s", "a", op, v, ic >> : op \in { "=", "~=", "|=", "^=", "$=", "*=" }, v \in { "x", "y", "X" }, ic \in { "", "i" } } \union
          { << "s", "b", "=", "x", "" >> }
Few == { << "s", "a", "", "", "" >>, << "s", "a", "=", "x", "" >>, << "s", "b", "=", "x", "" >>, << "s", "a", "^=", "x", "i" >>,
         << "not", << << "s", "b", "", "", "" >> >> >> }
Depth1 == Simple \union { << k, << x, y >> >> : k \in { "c", "is", "not", "where" }, x \in Few, y \in Few }
                 \union { << k, << x >> >> : k \in { "is", "not", "where" }, x \in Few }
Depth2 == { << k, << x, y >> >> : k \in { "is", "not", "where" }, x \in Few,
            y \in { << j, << p, q >> >> : j \in { "is", "not", "where" }, p \in Few, q \in Few } }
Cands == { << "s", "a", "", "", "" >>, << "s", "a", "=", "x", "" >>, << "s", "b", "=", "x", "" >>,
           << "c", << << "s", "a", "", "", "" >>, << "s", "b", "", "", "" >> >> >>,
           << "where", << << "s", "a", "", "", "" >> >> >>, << "not", << << "s", "b", "", "", "" >> >> >> }

VARIABLES kind, sel, cands
vars == << kind, sel, cands >>
Init == \/ /\ kind = "sel" /\ sel \in Depth1 \union Depth2 /\ cands = << >>
        \/ /\ kind = "choose" /\ sel = << >>
           /\ cands \in { << << 1, << a >> >>, << 2, << b >> >> >> : a \in Cands, b \in Cands } \union
                        { << << 1, << a >> >>, << 2, << b, c >> >>, << 3, << d >> >> >> : a \in Cands, b \in Cands, c \in Cands, d \in Cands }
Next == UNCHANGED vars
CandSet == { << cands[k][1], cands[k][2] >> : k \in DOMAIN cands }
SelLaws == kind = "sel" => \A row \in Rows :
   /\ SelMatch(<< "not", << sel >> >>, row) = ~ SelMatch(sel, row)
   /\ SelMatch(<< "is", << sel, sel >> >>, row) = SelMatch(sel, row)
   /\ SelSpec(<< "where", << sel >> >>) = << 0, 0 >>
   /\ SelSpec(<< "not", << sel >> >>) = SelSpec(sel)
   /\ SelSpec(<< "c", << sel, sel >> >>) = << 2 * SelSpec(sel)[1], 2 * SelSpec(sel)[2] >>
ChoiceLaws == kind = "choose" => \A row \in Rows :
   LET k == Choose1(CandSet, row, 0)
       best(c) == BestSpec(MatchSpec(c[2], row))
       live == { c \in CandSet : MatchSpec(c[2], row) # {} }
   IN  IF k = 0 THEN \A c \in live : \E d \in live : d[1] # c[1] /\ best(d) = best(c)
       ELSE LET c == CHOOSE c \in CandSet : c[1] = k IN
            /\ c \in live
            /\ \A d \in live \ { c } : best(d) # best(c)
            /\ \A d \in live : LexLess(best(c), best(d)) => \E x \in live : x[1] # d[1] /\ best(x) = best(d)
Inv == SelLaws /\ ChoiceLaws
Emit == IF EMIT THEN PrintT("@@C " \o ToJson([ kind |-> kind, sel |-> sel, cands |-> cands ])) ELSE TRUE
=============================================================================
