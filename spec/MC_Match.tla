------------------------------- MODULE MC_Match -------------------------------
(* Every small table of label pairs between a space of four records and a     *)
(* space of two: the sides are matched one after the other, the mappings      *)
(* read in both directions, and the laws of Match.tla checked on the way.     *)
EXTENDS Match, Json, IOUtils

EMIT == IOEnv.EMIT = "1"
WIDE == IOEnv.STEP = "1"     \* every recipe, not only a part of them
NOW == -1
SrcIdx == { << 0, << "-", "-" >> >>, << 1, << "x", "u" >> >>, << 2, << "x", "w" >> >>, << 3, << "x", "v" >> >>, << 4, << "y", "u" >> >> }
TgtIdx == { << 0, << "-" >> >>, << 1, << "m" >> >>, << 2, << "n" >> >> }
Base0(cols, idx) ==
  [ dom |-> "", cols |-> cols, disp |-> << >>, attrs |-> << >>, idx |-> idx, used |-> 0, ih |-> SortedSeq({ x[1] : x \in idx }),
    grp |-> { << "g", "", << >>, FALSE >> }, dflt |-> "g", wt |-> {}, lnk |-> {}, map |-> {}, pd |-> {}, st |-> {},
    loc |-> {}, ag |-> {}, qty |-> {}, dup |-> {} ]
WtOf(w) == { << "g", i, w[i] >> : i \in { j \in DOMAIN w : w[j] # NOW } }
Defs == { { << 1, 0 >>, << 1, 1 >> }, { << 1, 0 >>, << 0, 1 >> }, { << 0, 1 >>, << 1, 1 >> } }

Sides1 == { << NOID, << "x", "u" >> >>, << NOID, << "x", "" >> >>, << NOID, << "", "u" >> >>, << NOID, << "z", "" >> >>,
            << NOID, << "y", "u" >> >>, << 2, << "", "" >> >>, << 0, << "-", "-" >> >>, << NOID, << "", "" >> >> }
Sides2 == { << NOID, << "m" >> >>, << NOID, << "n" >> >>, << 1, << "" >> >>, << NOID, << "-" >> >>, << NOID, << "" >> >> }
Rows == { << a[1], a[2], b[1], b[2] >> : a \in Sides1, b \in Sides2 }
Coarse == { r \in Rows : r[1] = NOID /\ BitCount(BitsOf(r[2])) = 1 }
Recipes == [ w : { << 1, 3, 0, 2 >>, << 2, NOW, 1, NOW >> } \union (IF WIDE THEN { << 0, 0, 0, 5 >> } ELSE {}),
             u : { << 1, 3 >> } \union (IF WIDE THEN { << NOW, 1 >> } ELSE {}),
             pd : Defs, r1 : Coarse, r2 : Rows, lim : { 1, 2, 3 } \union (IF WIDE THEN { 5 } ELSE {}), ov : BOOLEAN ]
SrcOf(rec) == SetStruct([ Base0(<< "A", "B" >>, SrcIdx) EXCEPT !.pd = rec.pd, !.wt = WtOf(rec.w) ])
TgtOf(rec) == SetStruct([ Base0(<< "T" >>, TgtIdx) EXCEPT !.pd = { << 1 >> }, !.wt = WtOf(rec.u) ])

VARIABLES rec, s1, s2, m1, m2, pc
vars == << rec, s1, s2, m1, m2, pc >>
R == << rec.r1 \o << 6 >>, rec.r2 \o << 10 >> >>
K == { 1, 2 }
Lev(s, id, lab) == IF id # NOID THEN Ones(N(s)) ELSE BitsOf(lab)
l1(k) == Lev(s1, R[k][1], R[k][2])
l2(k) == Lev(s2, R[k][3], R[k][4])
id1(k) == R[k][1]
lab1(k) == R[k][2]
id2(k) == R[k][3]
lab2(k) == R[k][4]
v(k) == R[k][5]
Ok == \A k \in K : l1(k) \in Structure(s1) /\ l2(k) \in Structure(s2)

Init == /\ rec \in Recipes
        /\ s1 = SrcOf(rec) /\ s2 = TgtOf(rec) /\ m1 = {} /\ m2 = {} /\ pc = "built"
MatchLeft  == pc = "built" /\ Ok /\ pc' = "left" /\ m1' = MatchSide(s1, K, id1, lab1, l1, rec.lim, rec.ov, FALSE)
              /\ UNCHANGED << rec, s1, s2, m2 >>
MatchRight == pc = "left" /\ pc' = "both" /\ m2' = MatchSide(s2, K, id2, lab2, l2, rec.lim, FALSE, FALSE)
              /\ UNCHANGED << rec, s1, s2, m1 >>
Next == MatchLeft \/ MatchRight

to2 == Mappings(s1, m1, s2, m2, l2, v)
to1 == Mappings(s2, m2, s1, m1, l1, v)
Inv ==
  /\ pc # "built" => MatchSound(s1, K, id1, lab1, l1, rec.lim, rec.ov, m1)
  /\ pc = "both" =>
       /\ MatchSound(s2, K, id2, lab2, l2, rec.lim, FALSE, m2)
       /\ ValuesAddUp(K, m1, m2, v, to2) /\ ValuesAddUp(K, m2, m1, v, to1)
       \* both directions hold the same pairs, with the same amounts
       /\ { << k[1], k[2] >> : k \in DOMAIN to2 } = { << k[2], k[1] >> : k \in DOMAIN to1 }
       /\ \A o \in Ids(s1) : Near(SumBy({ k \in DOMAIN to2 : k[1] = o }, LAMBDA k : to2[k][1]),
                                  SumBy({ k \in DOMAIN to1 : k[2] = o }, LAMBDA k : to1[k][1]), 40)
Emit == IF EMIT /\ pc = "built" THEN PrintT("@@C " \o ToJson(rec)) ELSE TRUE
=============================================================================
