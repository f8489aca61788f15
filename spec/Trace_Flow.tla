----------------------------- MODULE Trace_Flow -----------------------------
(* Checks recorded reads, translations, pivots and exports of real spaces   *)
(* against Flow.tla.  The state is the reader of the current case.          *)
EXTENDS Flow, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
RANK   == JsonDeserialize(IOEnv.RANK)    \* ids 0..n by their scrambled value

VARIABLES t, i, rd, bad
vars == << t, i, rd, bad >>

PairSet(q) == { q[k] : k \in DOMAIN q }
ToState(j) ==
  [ dom |-> j.dom, cols |-> j.cols, disp |-> j.disp, attrs |-> j.attrs,
    idx |-> SeqSet(j.idx), used |-> 0, ih |-> j.ih, grp |-> SeqSet(j.grp), dflt |-> j.dflt, wt |-> SeqSet(j.wt),
    lnk |-> SeqSet(j.lnk), map |-> SeqSet(j.map), pd |-> SeqSet(j.pd), st |-> SeqSet(j.st),
    loc |-> SeqSet(j.loc), ag |-> { PairSet(j.ag[k]) : k \in DOMAIN j.ag },
    qty |-> { << j.qty[k][1], PairSet(j.qty[k][2]), j.qty[k][3] >> : k \in DOMAIN j.qty },
    dup |-> SeqSet(j.dup) ]
Entry(tr, k) == LET w == tr.world[k]
                IN [ uid |-> w.uid, s |-> ToState(w.s), gsel |-> SeqSet(w.gsel), lsel |-> SeqSet(w.lsel) ]
Closed == [ open |-> FALSE, c |-> {}, qz |-> 0, src |-> 0, moved |-> 0 ]

---------------------------------------------------------------------------
(* rows: <<labels, attribute values, value>> under a header *)
RowId(s, row) == LET S == FindLab(s, row[1]) IN IF Cardinality(S) = 1 THEN Only(S) ELSE -1
RowAt(keys, row) == { << keys[k], row[2][k] >> : k \in { j \in DOMAIN keys : row[2][j] # "" } }
Sub(name, ok) == IF ok THEN {} ELSE { name }

(* largest remainder: the quantized parts of one quantity *)
RankOf(j) == Pos(RANK, j)
QuantOK(num, tot, v, out) ==
  \* num: {<<id, weight>>}; tot > 0; out(id) in whole units; v the quantity
  LET a == Abs(v)
      flo(p) == (a * p[2]) \div tot
      rem(p) == (a * p[2]) % tot
      o(p)   == IF v < 0 THEN 0 - out[p[1]] ELSE out[p[1]]
      up     == { p \in num : o(p) = flo(p) + 1 }
  IN  /\ \A p \in num : o(p) \in { flo(p), flo(p) + 1 }
      /\ SumBy(num, o) = a
      /\ \A p \in up : \A q \in num \ up :
            /\ rem(p) >= rem(q)
            /\ (rem(p) = rem(q) /\ p[2] = q[2]) => RankOf(p[1]) < RankOf(q[1])

CompareRows(sp, sr, C, e) ==
  LET s == sp.s
      n == N(s)
      keys == SubSeq(e.hdr, n + 1, Len(e.hdr) - 1)
      ats == { c.at : c \in C }
      got == { << RowId(s, e.rows[k]), RowAt(keys, e.rows[k]) >> : k \in DOMAIN e.rows }
      val(k) == LET S == { j \in DOMAIN e.rows : << RowId(s, e.rows[j]), RowAt(keys, e.rows[j]) >> = k }
                IN  SumBy(S, LAMBDA j : e.rows[j][3])
      want == Keys(C)
      hdrok == /\ Len(e.hdr) >= n + 1
               /\ SubSeq(e.hdr, 1, n) = s.cols
               /\ e.hdr[Len(e.hdr)] = "value"
               /\ SeqSet(keys) = AttrKeys(C)
               /\ keys = SelectSeq(e.ord, LAMBDA x : x \in AttrKeys(C))
      extra == got \ want
      units(k) == SumBy(At(C, k), LAMBDA c : rd.qz)
      tol(k) == Slack(At(C, k)) + VS * units(k)
      quantized == rd.qz > 0
      soloQ(at) == { c.q : c \in { x \in C : x.at = at } }
  IN  IF ~ hdrok THEN { "hdr" } ELSE
      Sub("dup", Cardinality(got) = Len(e.rows)) \union
      Sub("place", /\ want \subseteq got
                   /\ \A k \in extra : k[1] = 0 /\ k[2] \in ats /\ val(k) = 0) \union
      Sub("attr", { k[2] : k \in got } = ats) \union
      Sub("total", \A at \in ats :
            Near(SumBy({ k \in got : k[2] = at }, val), Total({ c \in C : c.at = at }),
                 Slack({ c \in C : c.at = at }))) \union
      Sub("value", \A k \in want \intersect got : Near(val(k), Total(At(C, k)), tol(k))) \union
      (IF ~ quantized THEN {} ELSE
        Sub("whole", rd.qz > rd.moved => \A k \in got : val(k) % VS = 0) \union
        (IF rd.moved > 0 THEN {} ELSE
          Sub("quantized", \A at \in ats : Cardinality(soloQ(at)) = 1 =>
            LET q == Only(soloQ(at))
                g == WeightChoice(sr, q[2] \union DomPair(sr.s))
                D == Receivers(sr.s, q) \ { 0 }
                tot == SumBy(D, LAMBDA j : WeightOf(sr.s, g, j))
                num == IF tot > 0 THEN { << j, WeightOf(sr.s, g, j) >> : j \in D } ELSE { << j, 1 >> : j \in D }
            IN  (~ Whole(sr.s, q) /\ D # {} /\ { << j, at >> : j \in D } \subseteq got) =>
                  QuantOK(num, IF tot > 0 THEN tot ELSE Cardinality(D), q[3],
                          [ j \in D |-> val(<< j, at >>) \div VS ]))))

(* pivoting *)
PivotOf(cols, at) == [ k \in DOMAIN cols |-> AttrVal(at, cols[k]) ]
AllEmpty(p) == \A k \in DOMAIN p : p[k] = ""
ComparePivot(sp, C, e) ==
  LET s == sp.s
      n == N(s)
      live == { c \in C : ~ AllEmpty(PivotOf(e.cols, c.at)) }
      want == { PivotOf(e.cols, c.at) : c \in live }
      heads == SubSeq(e.hdr, 1, n)
      cell(r, p) == LET S == { k \in DOMAIN e.pcols : e.pcols[k] = p }
                    IN  IF S = {} THEN BLANK ELSE r[2][Only(S)]
      group(j, p) == { c \in live : c.id = j /\ PivotOf(e.cols, c.at) = p }
      ids == { c.id : c \in live }
      rowsOf(j) == { k \in DOMAIN e.rows : RowId(s, e.rows[k]) = j }
      expect(j, p) == LET G == group(j, p) IN
         IF e.agg = "sum" THEN Total(G) ELSE Total(G) \div Cardinality({ c.at : c \in G })
      okcell(j, p) ==
         LET r == e.rows[Only(rowsOf(j))] IN
         IF group(j, p) = {} THEN cell(r, p) = BLANK \/ (j = 0 /\ cell(r, p) = 0)
         ELSE (j = 0 /\ e.agg = "mean") \/
              Near(cell(r, p), expect(j, p), Slack(group(j, p)) + VS * SumBy(group(j, p), LAMBDA c : rd.qz))
  IN  Sub("hdr", heads = s.cols /\ NoDup(e.pcols) /\ SeqSet(e.pcols) = want /\ Len(e.pcols) = Cardinality(want)) \union
      Sub("place", /\ ids \subseteq { RowId(s, e.rows[k]) : k \in DOMAIN e.rows }
                   /\ \A k \in DOMAIN e.rows : RowId(s, e.rows[k]) \in ids \union { 0 }
                   /\ NoDup([ k \in DOMAIN e.rows |-> RowId(s, e.rows[k]) ])) \union
      Sub("value", (\A j \in ids : Cardinality(rowsOf(j)) = 1) => \A j \in ids : \A p \in want : okcell(j, p))

(* rows of a stream: <<labels, domain and attribute values, value>>, repeated as they come *)
CompareStream(sp, C, e) ==
  LET s == sp.s
      n == N(s)
      sum(j) == SumBy({ k \in DOMAIN e.rows : RowId(s, e.rows[k]) = j }, LAMBDA k : e.rows[k][3])
      ids == { c.id : c \in C }
      src == e.dom
  IN  Sub("hdr", e.hdr = s.cols \o (IF src = "" THEN << >> ELSE << "domain" >>) \o << "weight", "value" >>) \union
      Sub("attr", \A k \in DOMAIN e.rows : e.rows[k][2] = (IF src = "" THEN << >> ELSE << src >>) \o << e.g >>) \union
      Sub("place", { RowId(s, e.rows[k]) : k \in DOMAIN e.rows } = ids /\ Len(e.rows) = Cardinality(C)) \union
      Sub("total", Near(SumBy(ids, sum), Total(C), Slack(C))) \union
      Sub("value", \A j \in ids : Near(sum(j), Total({ c \in C : c.id = j }), Slack({ c \in C : c.id = j })))

StreamOf(tr, e) ==
  LET a == Entry(tr, e.at)
      c0 == ReadWeights(a, e.g, MatchIds(a.s, e.crit) \ { 0 })
      step(acc, b) == IF ~ acc.ok THEN acc
                      ELSE LET sb == Entry(tr, b)
                               r == TranslateStream(acc.from, sb, acc.c)
                           IN [ ok |-> r.ok, from |-> sb, c |-> r.c ]
  IN  FoldLeft(step, [ ok |-> TRUE, from |-> a, c |-> c0 ], e.path)

---------------------------------------------------------------------------
Outcome(pred, e) == IF pred.ok = (e.res = "ok") THEN {}
                    ELSE IF pred.ok THEN { "failed" } ELSE { "accepted:" \o x : x \in pred.why }
Judge(x, e, tr) ==
  CASE e.op = "read" ->
         LET r == ReadSpace(Entry(tr, e.at), e.sels, SeqSet(e.by))
             open == r.ok /\ e.res = "ok"
         IN [ y |-> [ open |-> open, c |-> IF open THEN r.c ELSE {}, qz |-> IF e.quant THEN 1 ELSE 0,
                      src |-> e.at, moved |-> 0 ],
              bad |-> Outcome(r, e) ]
    [] e.op = "translate" /\ x.open ->
         LET r == Translate(Entry(tr, e.cur), Entry(tr, e.to), x.c)
             go == r.ok /\ e.res = "ok"
         IN [ y |-> IF r.ok # (e.res = "ok") THEN Closed
                    ELSE IF go THEN [ x EXCEPT !.c = r.c, !.qz = IF e.quant THEN x.qz + 1 ELSE x.qz, !.moved = x.moved + 1 ]
                    ELSE x,
              bad |-> Outcome(r, e) ]
    [] e.op = "rows" /\ x.open ->
         LET sp == Entry(tr, e.cur)
             gone == { c.id : c \in x.c } \ Ids(sp.s)
         IN [ y |-> x, bad |-> IF gone # {} THEN (IF e.res = "ok" THEN { "accepted:gone" } ELSE {})
                               ELSE IF e.res # "ok" THEN { "failed" } ELSE CompareRows(sp, Entry(tr, x.src), x.c, e) ]
    [] e.op = "pivot" /\ x.open ->
         LET sp == Entry(tr, e.cur)
             gone == { c.id : c \in { d \in x.c : ~ AllEmpty(PivotOf(e.cols, d.at)) } } \ Ids(sp.s)
         IN [ y |-> x, bad |-> IF gone # {} THEN (IF e.res = "ok" THEN { "accepted:gone" } ELSE {})
                               ELSE IF e.res # "ok" THEN { "failed" } ELSE ComparePivot(sp, x.c, e) ]
    [] e.op = "stream" ->
         LET r == StreamOf(tr, e)
         IN [ y |-> x, bad |-> IF r.ok # (e.res = "ok") THEN (IF r.ok THEN { "failed" } ELSE { "accepted:link" })
                               ELSE IF r.ok THEN CompareStream(r.from, r.c, e) ELSE {} ]
    [] OTHER -> [ y |-> x, bad |-> {} ]

Init == /\ t \in DOMAIN Traces /\ i = 0 /\ rd = Closed /\ bad = 0
Next ==
  /\ i < Len(Traces[t].evs)
  /\ LET e == Traces[t].evs[i + 1]
         j == Judge(rd, e, Traces[t])
     IN  /\ rd' = j.y
         /\ IF j.bad = {} THEN TRUE
            ELSE PrintT("@@FAIL " \o ToJson([ t |-> t, i |-> i + 1, op |-> e.op, bad |-> j.bad ]))
         /\ bad' = IF j.bad = {} THEN bad ELSE bad + 1
  /\ i' = i + 1
  /\ t' = t
  /\ IF i' < Len(Traces[t].evs) THEN TRUE
     ELSE PrintT("@@DONE " \o ToJson([ t |-> t, n |-> i', bad |-> bad' ]))
View == << t, i >>
=============================================================================
