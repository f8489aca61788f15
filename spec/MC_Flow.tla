------------------------------- MODULE MC_Flow -------------------------------
(* Every small world: a source space of three records with two weight        *)
(* groups and a few quantities, a target space of two records and up to two  *)
(* links.  A reader is made, translated, and the laws of Flow.tla and the    *)
(* ones below are checked on every state.  The worlds are printed so that    *)
(* the same readers are made and translated by the code.                     *)
EXTENDS Flow, Json, IOUtils

PROFILE == IOEnv.PROFILE
EMIT == IOEnv.EMIT = "1"
KP == << "s", "k", "=", "p", "" >>
KR == << "s", "k", "=", "r", "" >>
J1 == << "s", "j", "", "", "" >>
NOW == -1     \* no weight

SrcIdx == { << 0, << "-", "-" >> >>, << 1, << "x", "u" >> >>, << 2, << "x", "w" >> >>, << 3, << "y", "u" >> >> }
TgtIdx == { << 0, << "-" >> >>, << 1, << "m" >> >>, << 2, << "n" >> >> }
Empty(cols, idx) ==
  [ dom |-> "", cols |-> cols, disp |-> << >>, attrs |-> << "k", "j" >>, idx |-> idx, used |-> 0, ih |-> SortedSeq({ x[1] : x \in idx }),
    grp |-> {}, dflt |-> "", wt |-> {}, lnk |-> {}, map |-> {}, pd |-> {}, st |-> {}, loc |-> {}, ag |-> {}, qty |-> {}, dup |-> {} ]

Q1 == << << "x", "" >>, { << "k", "p" >> }, 4 >>
Q2 == << << "x", "" >>, { << "k", "r" >> }, -3 >>
Q3 == << << "", "u" >>, { << "k", "p" >>, << "j", "1" >> }, 5 >>
Q4 == << << "x", "u" >>, { << "k", "p" >> }, 2 >>
Q5 == << << "", "" >>, { << "k", "r" >>, << "j", "1" >> }, 7 >>
Q6 == << << "", "u" >>, { << "k", "p" >>, << "j", "2" >> }, 1 >>
Q7 == << << "z", "" >>, { << "k", "r" >> }, 2 >>      \* labels nothing has
Q8 == << << "-", "-" >>, { << "k", "p" >> }, 3 >>

Fun3(S) == [ 1..3 -> S ]
Defs == { { << 1, 1 >> }, { << 1, 0 >>, << 1, 1 >> }, { << 1, 0 >>, << 0, 1 >>, << 1, 1 >> } }
Share == { {}, { << 1, 1 >> }, { << 2, 1 >> }, { << 1, 1 >>, << 2, 1 >> }, { << 1, 1 >>, << 2, 3 >> }, { << 1, 0 >>, << 2, 0 >> } }
(* a world's recipe *)
Recipes ==
  CASE PROFILE = "read" ->
         [ g : Fun3({ 0, 1, 3 }), h : { << 1, 1, 1 >>, << 0, 0, 2 >>, << 1, 2, NOW >> }, dflt : { "g" },
           pd : Defs, q : { { a, b } : a \in { Q1, Q2, Q3, Q4, Q5, Q8 }, b \in { Q1, Q3, Q5, Q6, Q7 } },
           m1 : { << { << 1, 1 >> }, { << 2, 1 >> }, { << 2, 1 >> } >> }, m2 : { << {}, {}, {} >> }, zero : { TRUE } ]
    [] PROFILE = "choice" ->
         [ g : { << 1, 1, 1 >>, << 0, 3, 1 >>, << 1, NOW, 0 >> }, h : Fun3({ NOW, 0, 2 }), dflt : { "g", "h", "" },
           pd : { { << 1, 0 >>, << 0, 1 >>, << 1, 1 >> } }, q : { { Q1, Q2 }, { Q3 }, { Q6, Q3, Q2 } },
           m1 : { << { << 1, 1 >> }, { << 2, 1 >> }, { << 2, 1 >> } >> }, m2 : { << {}, {}, {} >> }, zero : { FALSE } ]
    [] PROFILE = "move" ->
         [ g : { << 1, 1, 1 >>, << 0, 3, 1 >> }, h : { << 1, 0, 2 >> }, dflt : { "g" },
           pd : { { << 1, 0 >>, << 0, 1 >>, << 1, 1 >> } }, q : { { Q1, Q2, Q3 } },
           m1 : Fun3(Share), m2 : { << {}, {}, {} >>, << { << 1, 1 >>, << 2, 3 >> }, { << 1, 1 >> }, { << 2, 1 >> } >>,
                                    << { << 1, 1 >> }, { << 1, 1 >> }, {} >> }, zero : { TRUE } ]

GrpOf(name, w, sel) == { << name, "", sel, \A i \in 1..3 : w[i] # NOW >> }
WtOf(name, w) == { << name, i, w[i] >> : i \in { j \in 1..3 : w[j] # NOW } }
SrcOf(rec) ==
  LET s0 == [ Empty(<< "A", "B" >>, SrcIdx) EXCEPT !.pd = rec.pd, !.qty = rec.q, !.dflt = rec.dflt,
              !.grp = GrpOf("g", rec.g, << >>) \union GrpOf("h", rec.h, << KP >>),
              !.wt = WtOf("g", rec.g) \union WtOf("h", rec.h) ]
  IN  [ uid |-> "src", s |-> SetStruct(s0), gsel |-> { << "g", << >> >>, << "h", << KP >> >> }, lsel |-> {} ]
MapOf(l, f) == { << l[1], l[2], i, x[1], << 1 >>, x[2], NULLP >> : i \in 1..3, x \in { << 1, 0 >>, << 1, 1 >>, << 2, 0 >>, << 2, 1 >>, << 2, 3 >> } }
MapsOf(l, f) == { m \in MapOf(l, f) : << m[4], m[6] >> \in f[m[3]] }
TgtOf(rec) ==
  LET l1 == << "src", "one", "", "", << >>, TRUE, FALSE, << 0 >> >>
      l2 == << "src", "two", "", "", << KR, J1 >>, FALSE, FALSE, << 0 >> >>
      z(l) == IF rec.zero THEN { << l[1], l[2], 0, 0, << 1 >>, 0, NULLP >> } ELSE {}
      s1 == [ Empty(<< "T" >>, TgtIdx) EXCEPT !.lnk = { l1, l2 }, !.map = MapsOf(l1, rec.m1) \union MapsOf(l2, rec.m2) \union z(l1) \union z(l2) ]
      s2 == RelinkExact(s1, l1)
      s3 == RelinkExact(s2, l2)
  IN  [ uid |-> "tgt", s |-> s3, gsel |-> {}, lsel |-> { << "src", "one", << >> >>, << "src", "two", << KR, J1 >> >> } ]

Filters == { << >>, << KP >>, << KR, J1 >> }
VARIABLES rec, src, tgt, pc, filt, C
vars == << rec, src, tgt, pc, filt, C >>
Init == /\ rec \in Recipes
        /\ src = SrcOf(rec) /\ tgt = TgtOf(rec)
        /\ pc = "built" /\ filt = << >> /\ C = {}
Read == /\ pc = "built"
        /\ \E f \in Filters : LET r == ReadSpace(src, f, {}) IN
             /\ r.ok
             /\ filt' = f /\ C' = r.c /\ pc' = "read"
        /\ UNCHANGED << rec, src, tgt >>
Move == /\ pc = "read"
        /\ LET r == Translate(src, tgt, C) IN r.ok /\ C' = r.c /\ pc' = "moved"
        /\ UNCHANGED << rec, src, tgt, filt >>
Next == Read \/ Move

ReadLaws == pc = "built" => \A f \in Filters : Conserves(src, f) /\ Proportional(src, f)
MoveLaws == pc = "read" => TranslationConserves(src, tgt, C)
(* reading a part of the quantities gives the same as that part of the whole *)
FilterLaw == pc = "read" =>
  LET all == ReadSpace(src, << >>, {}) IN
  all.ok => C = { c \in all.c : \E q \in Selected(src.s, filt) : q = c.q }
(* a reader of two filters' union is the union of two readers                *)
UnionLaw == pc = "built" =>
  LET a == ReadSpace(src, << KP >>, {})
      b == ReadSpace(src, << KR >>, {})
      u == ReadSpace(src, << KP, KR >>, {})
  IN  (a.ok /\ b.ok) => u.ok /\ u.c = a.c \union b.c
(* summing by fewer attributes keeps every record's total                    *)
ByLaw == pc = "built" =>
  LET a == ReadSpace(src, << >>, {})
      b == ReadSpace(src, << >>, { "k" })
  IN  /\ a.ok = b.ok
      /\ \A i \in Ids(src.s) : Total({ c \in a.c : c.id = i }) = Total({ c \in b.c : c.id = i })
(* translating is linear: it does the same to each contribution alone        *)
Linear == pc = "moved" =>
  LET r == ReadSpace(src, filt, {}) IN
  \A c \in r.c : LET one == Translate(src, tgt, { c }) IN one.ok /\ one.c \subseteq C
Inv == ReadLaws /\ MoveLaws /\ FilterLaw /\ UnionLaw /\ ByLaw /\ Linear
Emit == IF EMIT /\ pc = "built" THEN PrintT("@@C " \o ToJson(rec)) ELSE TRUE
=============================================================================
