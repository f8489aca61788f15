----------------------------- MODULE Trace_Match -----------------------------
(* Checks recorded matchings, mapping loads and mapping reports of real      *)
(* spaces against Match.tla.  fm in a snapshot lists the stored mappings     *)
(* with their values in units of 1/VS.                                       *)
EXTENDS Match, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, bad
vars == << t, i, bad >>

PairSet(q) == { q[k] : k \in DOMAIN q }
ToState(j) ==
  [ dom |-> j.dom, cols |-> j.cols, disp |-> j.disp, attrs |-> j.attrs,
    idx |-> SeqSet(j.idx), used |-> 0, ih |-> j.ih, grp |-> SeqSet(j.grp), dflt |-> j.dflt, wt |-> SeqSet(j.wt),
    lnk |-> SeqSet(j.lnk), map |-> SeqSet(j.map), pd |-> SeqSet(j.pd), st |-> SeqSet(j.st),
    loc |-> SeqSet(j.loc), ag |-> { PairSet(j.ag[k]) : k \in DOMAIN j.ag },
    qty |-> { << j.qty[k][1], PairSet(j.qty[k][2]), j.qty[k][3] >> : k \in DOMAIN j.qty },
    dup |-> SeqSet(j.dup) ]
Sub(name, ok) == IF ok THEN {} ELSE { name }
Num(x) == x \notin { BAD, BLANK }
Tol(f, k) == 4 + 4 * f[k][2] + f[k][1] \div 500000

(* rows of mappings <<other, id, level, value>> against the expected function *)
CompareMaps(rows, f) ==
  LET keys == { << r[1], r[2], r[3] >> : r \in rows }
  IN  Sub("mappings", keys = DOMAIN f) \union
      Sub("values", \A r \in rows : LET k == << r[1], r[2], r[3] >> IN
                      k \in DOMAIN f => Near(r[4], f[k][1], Tol(f, k)))

(* ---- the mapper: rows <<id1, labels1, id2, labels2, value>> ---- *)
MapperJudge(tr, e) ==
  LET s1 == ToState(tr.world[e.a].s)
      s2 == ToState(tr.world[e.b].s)
      R  == e.rows
      blank1(k) == R[k][1] = NOID /\ BitCount(BitsOf(R[k][2])) = 0
      blank2(k) == R[k][3] = NOID /\ BitCount(BitsOf(R[k][4])) = 0
      \* the report of an unmatched record: no value, nothing on one side
      K  == { k \in DOMAIN R : ~ (R[k][5] = BLANK /\ (blank1(k) \/ blank2(k))) }
      l1(k) == IF R[k][1] # NOID THEN Ones(N(s1)) ELSE BitsOf(R[k][2])
      l2(k) == IF R[k][3] # NOID THEN Ones(N(s2)) ELSE BitsOf(R[k][4])
      refused == \/ \E k \in K : l1(k) \notin Structure(s1) \/ l2(k) \notin Structure(s2)
                                 \/ ~ Num(R[k][5]) \/ R[k][5] < 0
                 \/ s1.dflt = "" \/ s2.dflt = ""
      m1 == MatchSide(s1, K, LAMBDA k : R[k][1], LAMBDA k : R[k][2], l1, e.lim1, e.ov1, FALSE)
      m2 == MatchSide(s2, K, LAMBDA k : R[k][3], LAMBDA k : R[k][4], l2, e.lim2, e.ov2, FALSE)
      v(k) == R[k][5]
      f2 == Mappings(s1, m1, s2, m2, l2, v)
      f1 == Mappings(s2, m2, s1, m1, l1, v)
      loose == Tied(s1, K, l1) \/ Tied(s2, K, l2)
      sound == Sub("inv:C21", /\ MatchSound(s1, K, LAMBDA k : R[k][1], LAMBDA k : R[k][2], l1, e.lim1, e.ov1, m1)
                              /\ MatchSound(s2, K, LAMBDA k : R[k][3], LAMBDA k : R[k][4], l2, e.lim2, e.ov2, m2)
                              /\ ValuesAddUp(K, m1, m2, v, f2) /\ ValuesAddUp(K, m2, m1, v, f1))
  IN  IF refused THEN Sub("accepted", e.res = "err")
      ELSE IF e.res # "ok" THEN { "failed" }
      ELSE IF loose THEN {}
      ELSE sound \union CompareMaps(SeqSet(e.to2), f2) \union CompareMaps(SeqSet(e.to1), f1) \union
           Sub("dup", Len(e.to2) = Cardinality(SeqSet(e.to2)) /\ Len(e.to1) = Cardinality(SeqSet(e.to1))) \union
           Sub("full", e.full = FullyMatched(s1, m1, s2, m2))

(* ---- load_mapping: rows <<left cells, value, right cells>> ---- *)
LinkOf(s, uid, nm) == { l \in s.lnk : l[1] = uid /\ l[2] = nm }
\* what a target space holds after loading mappings f into a new link
Loaded(j0, j1, uid, e, f) ==
  LET s0 == ToState(j0.s)
      s1 == ToState(j1.s)
      new == SeqSet(j1.fm) \ SeqSet(j0.fm)
      want == { k \in DOMAIN f : k[3] # NONLEVEL /\ ~ (k[1] = 0 /\ k[2] = 0) }
      g  == [ k \in want |-> f[k] ]
      rows == { << m[3], m[4], m[5], m[6] >> : m \in new }
      d  == e.dflt = "yes" \/ (e.dflt = "none" /\ ~ \E l \in s0.lnk : l[1] = uid)
      L  == LinkOf(s1, uid, e.nm)
      l  == Only(L)
      total(o) == SumBy({ m \in new : m[3] = o }, LAMBDA m : m[6])
      others == { m[3] : m \in { n \in SeqSet(j1.fm) : n[1] = uid /\ n[2] = e.nm } }
  IN  Sub("lost", SeqSet(j0.fm) \subseteq SeqSet(j1.fm)) \union
      Sub("link", /\ Cardinality(L) = 1
                  /\ l[5] = e.sels /\ l[6] = d
                  /\ l[7] = (want # {} /\ Defined(s0) \subseteq { k[2] : k \in want })
                  /\ l[8] = (IF want = {} THEN NOHASH ELSE SortedSeq({ 0 } \union { k[1] : k \in want }))
                  /\ \A x \in s1.lnk \ L : \E y \in s0.lnk :
                       x = (IF d /\ y[1] = uid THEN [y EXCEPT ![6] = FALSE] ELSE y)
                  /\ Cardinality(s1.lnk) = Cardinality(s0.lnk) + 1) \union
      Sub("where", \A m \in new : m[1] = uid /\ m[2] = e.nm) \union
      CompareMaps(rows, g) \union
      Sub("shares", \A m \in new :
            LET tot == total(m[3])
                u == tot \div 4000000 + 1
                v == tot \div u
            IN
            IF m[3] = 0 \/ tot < 3000 THEN TRUE
            ELSE Near(m[7], MulDiv(SCALE, Min({ m[6] \div u, v }), v), 4 + (8 * SCALE) \div v)) \union
      Sub("other", [ s1 EXCEPT !.lnk = {}, !.map = {} ] = [ s0 EXCEPT !.lnk = {}, !.map = {} ])
Unchanged(j0, j1) == Sub("changed", ToState(j0.s) = ToState(j1.s) /\ j0.fm = j1.fm)
LoadJudge(tr, e) ==
  LET ja == tr.world[e.a]   jb == tr.world[e.b]
      ja2 == tr.world[e.a2] jb2 == tr.world[e.b2]
      s1 == ToState(ja.s)
      s2 == ToState(jb.s)
      R  == e.rows
      K  == DOMAIN R
      ndom(s, cols) == [ k \in DOMAIN cols |-> s.dom # "" /\ cols[k] = "domain" ]
      cells1(k) == R[k][1]
      cells2(k) == R[k][3]
      \* a domain column only has to agree with the space's domain
      hide(s, cols, c) == [ j \in DOMAIN c |-> IF ndom(s, cols)[j] THEN "" ELSE c[j] ]
      wrongdom(s, cols, c) == \E j \in DOMAIN cols : ndom(s, cols)[j] /\ c[j] # s.dom
      l1(k) == NamedLevel(s1, e.lc, hide(s1, e.lc, cells1(k)))
      l2(k) == NamedLevel(s2, e.rc, hide(s2, e.rc, cells2(k)))
      lab1(k) == NamedLab(s1, e.lc, cells1(k))
      lab2(k) == NamedLab(s2, e.rc, cells2(k))
      none(k) == NOID
      v(k) == R[k][2]
      refused == \/ \E k \in K : \/ wrongdom(s1, e.lc, cells1(k)) \/ wrongdom(s2, e.rc, cells2(k))
                                 \/ ~ Num(v(k)) \/ v(k) < 0
                 \/ s1.dflt = "" \/ s2.dflt = ""
      m1 == { p \in MatchSide(s1, K, none, lab1, l1, e.lim, e.ov, TRUE) : TRUE }
      m2 == { p \in MatchSide(s2, K, none, lab2, l2, e.lim, e.ov, TRUE) : TRUE }
      f2 == Mappings(s1, m1, s2, m2, l2, v)
      f1 == Mappings(s2, m2, s1, m1, l1, v)
      right == e.dir \in { "->", "-->", "<->", "<-->" }
      left  == e.dir \in { "<-", "<--", "<->", "<-->" }
      badR == right /\ LinkOf(s2, ja.uid, e.nm) # {}
      badL == left /\ LinkOf(s1, jb.uid, e.nm) # {}
      loose == Tied(s1, K, l1) \/ Tied(s2, K, l2)
  IN  IF refused \/ badR \/ (badL /\ ~ right)
      THEN Sub("accepted", e.res = "err") \union Unchanged(ja, ja2) \union Unchanged(jb, jb2)
      ELSE IF badL THEN Sub("accepted", e.res = "err") \union Unchanged(ja, ja2)
      ELSE IF e.res # "ok" THEN { "failed" }
      ELSE IF loose THEN {}
      ELSE (IF right THEN Loaded(jb, jb2, ja.uid, e, f2) ELSE Unchanged(jb, jb2)) \union
           (IF left THEN Loaded(ja, ja2, jb.uid, e, f1) ELSE Unchanged(ja, ja2))

(* ---- reports ---- *)
\* rows <<other id, domain, labels, id, domain, labels, ambiguity, value>>
ListJudge(tr, e) ==
  LET ja == tr.world[e.a]   jb == tr.world[e.b]
      a == ToState(ja.s)
      b == ToState(jb.s)
      L == LinkOf(b, ja.uid, e.nm)
      l == Only(L)
      maps == { m \in SeqSet(jb.fm) : m[1] = ja.uid /\ m[2] = e.nm }
      want == { << MapLine(a, b, m), m[6] >> : m \in maps } \union
              { << x, IF x[1] = 0 /\ x[4] = 0 THEN 0 ELSE BLANK >> : x \in OtherLines(a, b, l) }
      got  == { << SubSeq(r, 1, 7), r[8] >> : r \in SeqSet(e.rows) }
  IN  IF L = {} THEN Sub("accepted", e.res = "err")
      ELSE IF e.res # "ok" THEN { "failed" }
      ELSE Sub("hdr", e.hdr = (IF e.head THEN ListHeader(a, b, e.nm) ELSE << >>)) \union
           Sub("missing", { g[1] : g \in want } \subseteq { g[1] : g \in got }) \union
           Sub("invented", { g[1] : g \in got } \subseteq { g[1] : g \in want }) \union
           Sub("listed", ({ g[1] : g \in got } = { g[1] : g \in want }) => got = want) \union
           Sub("twice", Len(e.rows) = Cardinality(want))
InfoJudge(tr, e) ==
  LET ja == tr.world[e.a]   jb == tr.world[e.b]
      a == ToState(ja.s)
      b == ToState(jb.s)
      L == LinkOf(b, ja.uid, e.nm)
      l == Only(L)
  IN  IF L = {} THEN Sub("accepted", e.res = "err")
      ELSE IF e.res # "ok" THEN { "failed" }
      ELSE Sub("counts", e.nums = << Cardinality(Ids(a)) - Cardinality(Missing(a, b, l)), Cardinality(Ids(a)),
                                     Cardinality(Ids(b)) - Cardinality(Unmapped(b, l)), Cardinality(Ids(b)),
                                     Cardinality(Stale(a, b, l)) >>)
\* rows <<id, domain, labels, weights>>
WeightsJudge(tr, e) ==
  LET a == ToState(tr.world[e.a].s)
      names == IF e.all THEN e.order ELSE e.names
      bad0 == \E k \in DOMAIN names : names[k] \notin GroupNames(a)
      cell(g, j) == IF \E w \in a.wt : w[1] = g /\ w[2] = j THEN WeightOf(a, g, j) * VS
                    ELSE IF j = 0 THEN 0 ELSE BLANK
      d == IF a.dom = "" THEN << >> ELSE << a.dom >>
  IN  IF bad0 THEN Sub("accepted", e.res = "err")
      ELSE IF e.res # "ok" THEN { "failed" }
      ELSE Sub("hdr", /\ e.all => (SeqSet(names) = GroupNames(a) /\ NoDup(names))
                      /\ e.hdr = << "index_id" >> \o (IF a.dom = "" THEN << >> ELSE << "domain" >>) \o a.cols \o names) \union
           Sub("rows", SeqSet(e.rows) = { << j, d, LabOf(a, j), [ k \in DOMAIN names |-> cell(names[k], j) ] >> : j \in Ids(a) }) \union
           Sub("twice", Len(e.rows) = Cardinality(a.idx))

Judge(e, tr) ==
  CASE e.op = "mapper"  -> MapperJudge(tr, e)
    [] e.op = "load"    -> LoadJudge(tr, e)
    [] e.op = "list"    -> ListJudge(tr, e)
    [] e.op = "info"    -> InfoJudge(tr, e)
    [] e.op = "weights" -> WeightsJudge(tr, e)
    [] OTHER -> {}
Init == t \in DOMAIN Traces /\ i = 0 /\ bad = 0
Next ==
  /\ i < Len(Traces[t].evs)
  /\ LET e == Traces[t].evs[i + 1]
         b == Judge(e, Traces[t])
     IN  /\ IF b = {} THEN TRUE
            ELSE PrintT("@@FAIL " \o ToJson([ t |-> t, i |-> i + 1, op |-> e.op, bad |-> b ]))
         /\ bad' = IF b = {} THEN bad ELSE bad + 1
  /\ i' = i + 1
  /\ t' = t
  /\ IF i' < Len(Traces[t].evs) THEN TRUE
     ELSE PrintT("@@DONE " \o ToJson([ t |-> t, n |-> i', bad |-> bad' ]))
View == << t, i >>
=============================================================================
