-------------------------------- MODULE Match --------------------------------
(* Turning a table of label pairs into mappings between two spaces, and      *)
(* reporting the mappings that are stored.                                   *)
(*                                                                           *)
(* One side of the table is described per row k by                           *)
(*   id(k)   an index id, or NOID                                            *)
(*   lab(k)  labels in the order of the label columns, "" where none is given *)
(* A row is matched at the level of the labels it gives (ids name records,   *)
(* so their level is the full one).                                          *)
EXTENDS Flow

NONLEVEL == << -2 >>        \* a row that takes no part in the matching
DefaultWt(s, i) == \E w \in s.wt : w[1] = s.dflt /\ w[2] = i
\* may record i share an ambiguous value?  (the old loader needs a stored
\* weight of the undefined record too)
Shares(s, i, old) == DefaultWt(s, i) \/ (i = 0 /\ ~ old)
DefWeight(s, i) == IF DefaultWt(s, i) THEN WeightOf(s, s.dflt, i) ELSE 0

(* Rows are matched from the finest level to the coarsest.  A row that       *)
(* agrees with more than limit records is left out; a row that agrees with   *)
(* several keeps, unless overlaps are allowed, only those no other level has *)
(* matched; it is left out when it still has several and one has no weight.  *)
MatchRow(s, id, lab, lv, limit, overlap, old, seen) ==
  LET all  == IF id # NOID THEN (IF HasId(s, id) THEN { id } ELSE {}) ELSE MatchIds(s, lab)
      kept == IF id # NOID \/ Cardinality(all) < 2 \/ overlap THEN all
              ELSE { i \in all : ~ \E p \in seen : p[1] = i /\ p[2] # lv }
  IN  IF id = NOID /\ Cardinality(all) > limit THEN {}
      ELSE IF Cardinality(kept) > 1 /\ \E i \in kept : ~ Shares(s, i, old) THEN {}
      ELSE kept
Order(s, L) == SetToSortSeq(L, LAMBDA a, b : GranOf(s, a) > GranOf(s, b))
\* the result: a set of <<row, record>>
MatchSide(s, K, id(_), lab(_), lev(_), limit, overlap, old) ==
  LET L == { lev(k) : k \in K } \ { NONLEVEL }
      level(a, lv) ==
        LET new == UNION { { << k, i >> : i \in MatchRow(s, id(k), lab(k), lv, limit, overlap, old, a.seen) }
                           : k \in { j \in K : lev(j) = lv } }
        IN  [ m |-> a.m \union new, seen |-> a.seen \union { << p[2], lv >> : p \in new } ]
  IN  FoldLeft(level, [ m |-> {}, seen |-> {} ], Order(s, L)).m
\* levels of equal granularity may be taken in either order
Tied(s, K, lev(_)) == \E j, k \in K : /\ lev(j) # lev(k) /\ lev(j) # NONLEVEL /\ lev(k) # NONLEVEL
                                      /\ GranOf(s, lev(j)) = GranOf(s, lev(k))

(* the share of a row's value each of its records takes: <<numerator, denominator>> *)
ShareOf(s, M, p) ==
  LET R == { q \in M : q[1] = p[1] }
      tot == SumBy(R, LAMBDA q : DefWeight(s, q[2]))
  IN  IF tot > 0 THEN << DefWeight(s, p[2]), tot >> ELSE << 1, Cardinality(R) >>

(* the mappings found, from the source's matches to the target's:            *)
(* key <<other id, id, level>> |-> <<value in units of 1/VS, rows>>          *)
Mappings(ss, ms, ts, mt, tlev(_), v(_)) ==
  LET pairs == { x \in ms \X mt : x[1][1] = x[2][1] /\ (x[1][2] # 0 \/ x[2][2] # 0) }
      key(x) == << x[1][2], x[2][2], tlev(x[1][1]) >>
      shs == [ p \in ms |-> ShareOf(ss, ms, p) ]
      sht == [ p \in mt |-> ShareOf(ts, mt, p) ]
      amount(x) == MulDiv(MulDiv(v(x[1][1]) * VS, shs[x[1]][1], shs[x[1]][2]), sht[x[2]][1], sht[x[2]][2])
      zero == [ k \in { key(x) : x \in pairs } |-> << 0, 0 >> ]
  IN  FoldSet(LAMBDA x, f : [ f EXCEPT ![key(x)] = << @[1] + amount(x), @[2] + 1 >> ], zero, pairs)
\* every defined record of both spaces takes part in a mapping
FullyMatched(s1, m1, s2, m2) ==
  LET both == { p[1] : p \in m1 } \intersect { p[1] : p \in m2 }
  IN  /\ Defined(s1) \subseteq { p[2] : p \in { q \in m1 : q[1] \in both } }
      /\ Defined(s2) \subseteq { p[2] : p \in { q \in m2 : q[1] \in both } }

---------------------------------------------------------------------------
(* Loading rows of two column groups by name.  cols: the side's columns.     *)
NamedLab(s, cols, cells) ==
  [ j \in 1..N(s) |-> IF Has(cols, s.cols[j]) THEN cells[Pos(cols, s.cols[j])] ELSE "" ]
NamedLevel(s, cols, cells) ==
  LET b == BitsOf(NamedLab(s, cols, cells))
  IN  IF BitCount(b) = 0 \/ b \notin Structure(s) THEN NONLEVEL
      ELSE IF \E k \in DOMAIN cols : ~ Has(s.cols, cols[k]) /\ cells[k] # "" THEN NONLEVEL
      ELSE b

---------------------------------------------------------------------------
(* Properties of any matching (C21) *)
MatchSound(s, K, id(_), lab(_), lev(_), limit, overlap, M) ==
  /\ \A p \in M : IF id(p[1]) # NOID THEN p[2] = id(p[1]) ELSE Agrees(LabOf(s, p[2]), lab(p[1]))
  /\ \A k \in K : Cardinality({ p \in M : p[1] = k }) <= limit \/ id(k) # NOID
  \* a row that agrees with exactly one record has it
  /\ \A k \in K : (id(k) = NOID /\ lev(k) # NONLEVEL /\ limit >= 1 /\ Cardinality(MatchIds(s, lab(k))) = 1)
                  => \E p \in M : p[1] = k
  \* without overlaps no record of an ambiguous row was matched at a finer level
  /\ overlap \/ \A p, q \in M : (p[2] = q[2] /\ lev(p[1]) # lev(q[1])
                                 /\ GranOf(s, lev(p[1])) < GranOf(s, lev(q[1]))
                                 /\ id(p[1]) = NOID)
                  => Cardinality(MatchIds(s, lab(p[1]))) = 1
\* the values mapped for a row that matched on both sides add up to its value
ValuesAddUp(K, ms, mt, v(_), out) ==
  LET both == { p[1] : p \in ms } \intersect { p[1] : p \in mt }
      \* (a row whose records are undefined on both sides adds nothing)
      clean == { k \in both : ~ (\E p \in ms : p = << k, 0 >>) \/ ~ (\E p \in mt : p = << k, 0 >>) }
  IN  clean = both =>
        Near(SumBy(DOMAIN out, LAMBDA x : out[x][1]), VS * SumBy(both, v),
             4 + 3 * SumBy(DOMAIN out, LAMBDA x : out[x][2]))

---------------------------------------------------------------------------
(* Reports of link l of space b from space a.                                *)
Missing(a, b, l)  == Defined(a) \ { m[3] : m \in Maps(b, l) }
Unmapped(b, l)    == Defined(b) \ { m[4] : m \in Maps(b, l) }
Stale(a, b, l)    == { m[3] : m \in Maps(b, l) } \ Ids(a)
JoinText(q) == IF q = << >> THEN "" ELSE FoldLeft(LAMBDA x, y : x \o ", " \o y, q[1], SubSeq(q, 2, Len(q)))
AmbText(s, lv) == JoinText([ k \in 1..Cardinality({ j \in DOMAIN lv : lv[j] = 0 }) |->
                     s.cols[SortedSeq({ j \in DOMAIN lv : lv[j] = 0 })[k]] ])
NOTEXT == "#none"
Labs(s, i) == IF i # NOID /\ HasId(s, i) THEN LabOf(s, i) ELSE [ k \in 1..N(s) |-> NOTEXT ]
DomCell(s, i) == IF s.dom = "" THEN << >> ELSE << IF i = NOID THEN NOTEXT ELSE s.dom >>
\* lines <<other id, domain, labels, id, domain, labels, ambiguity>>; values apart
Line(a, b, o, i, amb) == << o, DomCell(a, o), Labs(a, o), i, DomCell(b, i), Labs(b, i), amb >>
MapLine(a, b, m) == Line(a, b, m[3], m[4], AmbText(b, m[5]))
OtherLines(a, b, l) ==
  { Line(a, b, 0, 0, "") } \union { Line(a, b, NOID, i, "") : i \in Unmapped(b, l) }
                           \union { Line(a, b, o, NOID, "") : o \in Missing(a, b, l) }
ListHeader(a, b, nm) ==
  LET d(s) == IF s.dom = "" THEN << >> ELSE << "domain" >>
  IN  << "index_id" >> \o d(a) \o a.cols \o << nm, "index_id" >> \o d(b) \o b.cols \o << "ambiguous_fields" >>
=============================================================================
