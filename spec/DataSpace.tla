------------------------------ MODULE DataSpace ------------------------------
(* The state of one Toron data space and the effect of every public         *)
(* operation on it.  Apply(s, e) is the outcome the documentation promises   *)
(* for event e in state s: [ok |-> did it succeed, s |-> the state after].   *)
(* A failed operation leaves the state as it was.                            *)
(*                                                                          *)
(* State components                                                         *)
(*   dom    domain name ("" for none)                                       *)
(*   cols   label columns (sequence of names)   disp  display order         *)
(*   attrs  registered attributes                                           *)
(*   idx    index records {<<id, labels>>}; id 0 is the undefined record    *)
(*   used   greatest id ever given out                                      *)
(*   ih     ids the stored index fingerprint stands for (sorted)            *)
(*   grp    weight groups {<<name, descr, selectors, complete>>}            *)
(*   dflt   name of the default group ("" for none)                         *)
(*   wt     weights {<<group, id, value>>}                                  *)
(*   lnk    links {<<space, name, hint, descr, selectors, default,          *)
(*          locally complete, other ids>>}                                  *)
(*   map    mappings {<<space, name, other id, id, level, value, share>>}   *)
(*   pd     partition definitions {bits}    st  structure {<<bits, gran>>}  *)
(*   loc    stored label combinations       ag  stored attribute groups     *)
(*   qty    quantities {<<labels, attributes, value>>}                      *)
(*   dup    components holding the same row twice (always {})               *)
EXTENDS Base

RESERVED == { "domain", "index_id", "value", "weight",
              "_location_id", "_structure_id", "_granularity" }
NOHASH == << -2 >>

(* log2 of 1..264 in millionths *)
LOG2 == << 0, 1000000, 1584963, 2000000, 2321928, 2584963, 2807355, 3000000,
  3169925, 3321928, 3459432, 3584963, 3700440, 3807355, 3906891, 4000000,
  4087463, 4169925, 4247928, 4321928, 4392317, 4459432, 4523562, 4584963,
  4643856, 4700440, 4754888, 4807355, 4857981, 4906891, 4954196, 5000000,
  5044394, 5087463, 5129283, 5169925, 5209453, 5247928, 5285402, 5321928,
  5357552, 5392317, 5426265, 5459432, 5491853, 5523562, 5554589, 5584963,
  5614710, 5643856, 5672425, 5700440, 5727920, 5754888, 5781360, 5807355,
  5832890, 5857981, 5882643, 5906891, 5930737, 5954196, 5977280, 6000000,
  6022368, 6044394, 6066089, 6087463, 6108524, 6129283, 6149747, 6169925,
  6189825, 6209453, 6228819, 6247928, 6266787, 6285402, 6303781, 6321928,
  6339850, 6357552, 6375039, 6392317, 6409391, 6426265, 6442943, 6459432,
  6475733, 6491853, 6507795, 6523562, 6539159, 6554589, 6569856, 6584963,
  6599913, 6614710, 6629357, 6643856, 6658211, 6672425, 6686501, 6700440,
  6714246, 6727920, 6741467, 6754888, 6768184, 6781360, 6794416, 6807355,
  6820179, 6832890, 6845490, 6857981, 6870365, 6882643, 6894818, 6906891,
  6918863, 6930737, 6942515, 6954196, 6965784, 6977280, 6988685, 7000000,
  7011227, 7022368, 7033423, 7044394, 7055282, 7066089, 7076816, 7087463,
  7098032, 7108524, 7118941, 7129283, 7139551, 7149747, 7159871, 7169925,
  7179909, 7189825, 7199672, 7209453, 7219169, 7228819, 7238405, 7247928,
  7257388, 7266787, 7276124, 7285402, 7294621, 7303781, 7312883, 7321928,
  7330917, 7339850, 7348728, 7357552, 7366322, 7375039, 7383704, 7392317,
  7400879, 7409391, 7417853, 7426265, 7434628, 7442943, 7451211, 7459432,
  7467606, 7475733, 7483816, 7491853, 7499846, 7507795, 7515700, 7523562,
  7531381, 7539159, 7546894, 7554589, 7562242, 7569856, 7577429, 7584963,
  7592457, 7599913, 7607330, 7614710, 7622052, 7629357, 7636625, 7643856,
  7651052, 7658211, 7665336, 7672425, 7679480, 7686501, 7693487, 7700440,
  7707359, 7714246, 7721099, 7727920, 7734710, 7741467, 7748193, 7754888,
  7761551, 7768184, 7774787, 7781360, 7787903, 7794416, 7800900, 7807355,
  7813781, 7820179, 7826548, 7832890, 7839204, 7845490, 7851749, 7857981,
  7864186, 7870365, 7876517, 7882643, 7888743, 7894818, 7900867, 7906891,
  7912889, 7918863, 7924813, 7930737, 7936638, 7942515, 7948367, 7954196,
  7960002, 7965784, 7971544, 7977280, 7982994, 7988685, 7994353, 8000000,
  8005625, 8011227, 8016808, 8022368, 8027906, 8033423, 8038919, 8044394 >>

---------------------------------------------------------------------------
(* reading the state *)
N(s)        == Len(s.cols)
Ids(s)      == { r[1] : r \in s.idx }
Defined(s)  == Ids(s) \ { 0 }
HasId(s, i) == \E r \in s.idx : r[1] = i
LabOf(s, i) == (CHOOSE r \in s.idx : r[1] = i)[2]
FindLab(s, lab) == { r[1] : r \in { x \in s.idx : x[2] = lab } }
Agrees(lab, crit) == \A k \in DOMAIN crit : crit[k] = "" \/ crit[k] = lab[k]
MatchIds(s, crit) == { r[1] : r \in { x \in s.idx : Agrees(x[2], crit) } }
BitsOf(lab) == [ k \in DOMAIN lab |-> IF lab[k] = "" THEN 0 ELSE 1 ]
Structure(s) == { x[1] : x \in s.st }
DefBits(s, names) == [ k \in 1..N(s) |-> IF s.cols[k] \in names THEN 1 ELSE 0 ]
GroupNames(s) == { g[1] : g \in s.grp }
Weighted(s, g) == { w[2] : w \in { x \in s.wt : x[1] = g } }
WComplete(s, g) == Defined(s) \subseteq Weighted(s, g)
WeightOf(s, g, i) == (CHOOSE w \in s.wt : w[1] = g /\ w[2] = i)[3]
Maps(s, l)  == { m \in s.map : m[1] = l[1] /\ m[2] = l[2] }
LComplete(s, l) == Defined(s) \subseteq { m[4] : m \in Maps(s, l) }
OtherIds(s, l)  == { 0 } \union { m[3] : m \in Maps(s, l) }

Gran(s, bits) ==
  IF BitCount(bits) = 0 \/ Defined(s) = {} THEN -1
  ELSE LET recs  == { r \in s.idx : r[1] # 0 }
           key(r) == [ k \in DOMAIN bits |-> IF bits[k] = 1 THEN r[2][k] ELSE "" ]
           keys  == { key(r) : r \in recs }
           n     == Cardinality(recs)
           size(k) == Cardinality({ r \in recs : key(r) = k })
           coarse == SumBy(keys, LAMBDA k : size(k) * LOG2[size(k)])
       IN  LOG2[n] - (coarse \div n)
---------------------------------------------------------------------------
(* derived data kept in the space *)
SetIh(s)    == [s EXCEPT !.ih = SortedSeq(Ids(s))]
SetGran(s)  == [s EXCEPT !.st = { << x[1], Gran(s, x[1]) >> : x \in s.st }]
SetStruct(s) == [s EXCEPT !.st = { << b, Gran(s, b) >> : b \in Closure(s.pd, N(s)) }]
(* after records were loaded: definitions exist for every indexed space     *)
LoadGran(s) == IF s.pd = {} THEN SetStruct([s EXCEPT !.pd = { Ones(N(s)) }]) ELSE SetGran(s)
GroupsExact(s)    == [s EXCEPT !.grp = { << g[1], g[2], g[3], WComplete(s, g[1]) >> : g \in s.grp }]
GroupsUp(s)       == [s EXCEPT !.grp = { << g[1], g[2], g[3], g[4] \/ WComplete(s, g[1]) >> : g \in s.grp }]
GroupsDown(s)     == [s EXCEPT !.grp = { << g[1], g[2], g[3], FALSE >> : g \in s.grp }]
WithLC(l, b)      == [l EXCEPT ![7] = b]
LinksDown(s)      == [s EXCEPT !.lnk = { WithLC(l, FALSE) : l \in s.lnk }]
LinksUp(s)        == [s EXCEPT !.lnk = { WithLC(l, l[7] \/ LComplete(s, l)) : l \in s.lnk }]
LinkHash(s, l)    == SortedSeq(OtherIds(s, l))

(* shares of the mappings of other record o in link l *)
Refreshed(s, l, O) ==
  LET aff(m) == m[1] = l[1] /\ m[2] = l[2] /\ m[3] \in O
      new(m) == LET same == { x \in s.map : x[1] = m[1] /\ x[2] = m[2] /\ x[3] = m[3] }
                    tot  == SumBy(same, LAMBDA x : x[6])
                IN  IF m[3] = 0 THEN 0
                    ELSE IF tot > 0 THEN MulDiv(SCALE, m[6], tot)
                    ELSE SCALE \div Cardinality(same)
  IN  [s EXCEPT !.map = { IF aff(m) THEN [m EXCEPT ![7] = new(m)] ELSE m : m \in s.map }]
RelinkExact(s, l) ==
  LET s1 == Refreshed(s, l, OtherIds(s, l))
      l1 == [l EXCEPT ![7] = LComplete(s, l), ![8] = LinkHash(s, l)]
  IN  [s1 EXCEPT !.lnk = (@ \ { l }) \union { l1 }]

---------------------------------------------------------------------------
(* Outcomes.  Row loops fold over [ok, s, n...] accumulators.               *)
OK(s)  == [ok |-> TRUE,  s |-> s]
ERR(s) == [ok |-> FALSE, s |-> s]
Loop(rows, step(_, _), init) == FoldLeft(LAMBDA a, r : IF a.ok THEN step(a, r) ELSE a, init, rows)
Fail(a) == [a EXCEPT !.ok = FALSE]
SeqSet(q) == { q[k] : k \in DOMAIN q }
AllNonEmpty(lab) == \A k \in DOMAIN lab : lab[k] # ""

---------------------------------------------------------------------------
(* label columns, display order, domain, attributes *)
ValidNew(s, names) == \A k \in DOMAIN names :
  /\ names[k] \notin RESERVED /\ ~ Has(s.cols, names[k]) /\ ~ Has(s.attrs, names[k])

Extend(b, k)   == b \o Zeros(k)
AddCols(s, e) ==
  LET c == e.cols  k == Len(c)  n == N(s)
      pad(q, v) == q \o [ j \in 1..k |-> v ]
      oldwhole == Extend(Ones(n), k)
      whole == Ones(n + k)
      s1 == [s EXCEPT !.cols = @ \o c, !.disp = @ \o c,
               !.idx = { << r[1], pad(r[2], "-") >> : r \in @ },
               !.loc = { pad(x, "") : x \in @ },
               !.qty = { << pad(q[1], ""), q[2], q[3] >> : q \in @ },
               !.map = { [m EXCEPT ![5] = Extend(m[5], k)] : m \in @ },
               !.pd  = MinGen({ Extend(d, k) : d \in @ } \union { whole }, n + k)]
      free == /\ ~ \E q \in s1.qty : BitsOf(q[1]) = oldwhole
              /\ ~ \E m \in s1.map : m[5] = oldwhole
      s2 == IF free THEN [s1 EXCEPT !.pd = MinGen((@ \ { oldwhole }) \union { whole }, n + k)] ELSE s1
  IN  IF ~ ValidNew(s, c) \/ ~ NoDup(c) THEN ERR(s) ELSE OK(SetStruct(s2))

Renamed(q, pairs) == [ j \in DOMAIN q |->
   IF \E k \in DOMAIN pairs : pairs[k][1] = q[j]
   THEN pairs[CHOOSE k \in DOMAIN pairs : pairs[k][1] = q[j]][2] ELSE q[j] ]
RenCols(s, e) ==
  LET p == e.pairs
      new == [ k \in DOMAIN p |-> p[k][2] ]
  IN  IF \/ \E k \in DOMAIN p : ~ Has(s.cols, p[k][1])
         \/ ~ ValidNew(s, new) \/ ~ NoDup(new) THEN ERR(s)
      ELSE OK([s EXCEPT !.cols = Renamed(@, p), !.disp = Renamed(@, p)])

Keep(q, ks) == [ j \in DOMAIN ks |-> q[ks[j]] ]
DropCols(s, e) ==
  LET d  == SeqSet(e.cols)
      ks == SelectSeq([ j \in 1..N(s) |-> j ], LAMBDA j : s.cols[j] \notin d)
      n  == Len(ks)
      idx1 == { << r[1], Keep(r[2], ks) >> : r \in s.idx }
      loc1 == { Keep(x, ks) : x \in s.loc }
      map1 == { [m EXCEPT ![5] = Keep(m[5], ks)] : m \in s.map }
      mkey(m) == << m[1], m[2], m[3], m[4], m[5] >>
      clash == \/ Cardinality({ r[2] : r \in idx1 }) < Cardinality(s.idx)
               \/ Cardinality(loc1) < Cardinality(s.loc)
               \/ Cardinality({ mkey(m) : m \in map1 }) < Cardinality(s.map)
      s1 == [s EXCEPT !.cols = Keep(@, ks), !.disp = SelectSeq(@, LAMBDA x : x \notin d),
               !.idx = idx1, !.loc = loc1, !.map = map1,
               !.qty = { << Keep(q[1], ks), q[2], q[3] >> : q \in @ },
               !.pd  = MinGen({ Keep(b, ks) : b \in @ } \union { Ones(n) }, n) \ { Zeros(n) }]
  IN  IF \/ d \intersect (RESERVED \ {"_x"}) # {} \/ SeqSet(s.cols) \subseteq d \/ clash THEN ERR(s)
      ELSE OK(SetStruct(s1))

OrdLab(s, e)  == IF Has(s.disp, e.x) THEN OK([s EXCEPT !.disp = MoveBy(@, e.x, e.k)]) ELSE ERR(s)
OrdAttr(s, e) == IF Has(s.attrs, e.x) THEN OK([s EXCEPT !.attrs = MoveBy(@, e.x, e.k)]) ELSE ERR(s)
SetDomain(s, e) == OK([s EXCEPT !.dom = e.v])
SetAttrs(s, e) ==
  IF \/ \E k \in DOMAIN e.attrs : e.attrs[k] \in RESERVED \/ Has(s.cols, e.attrs[k])
     \/ ~ NoDup(e.attrs) THEN ERR(s)
  ELSE OK([s EXCEPT !.attrs = e.attrs])

---------------------------------------------------------------------------
(* partition definitions (events name the columns) *)
KnownDef(s, d) == \A k \in DOMAIN d : Has(s.cols, d[k])
NonZero(S, n)  == S \ { Zeros(n) }
AddPdef(s, e) ==
  LET b == DefBits(s, SeqSet(e.def))
  IN  IF \/ s.cols = << >> \/ ~ KnownDef(s, e.def) \/ b \in s.pd \/ b \in Closure(s.pd, N(s))
      THEN ERR(s)
      ELSE OK(SetStruct([s EXCEPT !.pd = MinGen(@ \union { b, Ones(N(s)) }, N(s))]))
AddPdefs(s, e) ==
  LET bs == { DefBits(s, SeqSet(e.defs[k])) : k \in DOMAIN e.defs }
  IN  IF s.cols = << >> \/ \E k \in DOMAIN e.defs : ~ KnownDef(s, e.defs[k]) THEN ERR(s)
      ELSE OK(SetStruct([s EXCEPT !.pd = MinGen(NonZero(@ \union bs \union { Ones(N(s)) }, N(s)), N(s))]))
DropPdefs(s, e) ==
  LET bs == { DefBits(s, SeqSet(e.defs[k])) : k \in { j \in DOMAIN e.defs : KnownDef(s, e.defs[j]) } }
  IN  IF s.cols = << >> \/ Ones(N(s)) \in bs THEN ERR(s)
      ELSE OK(SetStruct([s EXCEPT !.pd = MinGen(NonZero((@ \ bs) \union { Ones(N(s)) }, N(s)), N(s))]))

---------------------------------------------------------------------------
(* index records.  Row: <<id, labels, weights aligned with e.dw>>           *)
InsertRec(s, lab) == [s EXCEPT !.idx = @ \union { << s.used + 1, lab >> }, !.used = @ + 1]
SetLab(s, i, lab) == [s EXCEPT !.idx = (@ \ { << i, LabOf(s, i) >> }) \union { << i, lab >> }]

InsIndex(s, e) ==
  LET missing == e.wsel # "all" /\ ~ (SeqSet(e.wnames) \subseteq SeqSet(e.dw))
      unknown == e.wsel # "all" /\ ~ (SeqSet(e.wnames) \subseteq GroupNames(s))
      wcols   == { k \in DOMAIN e.dw : IF e.wsel = "all" THEN e.dw[k] \in GroupNames(s)
                                       ELSE e.dw[k] \in SeqSet(e.wnames) }
      weight(a, i, k, v) ==          \* one weight cell of record i
        LET g == e.dw[k] IN
        IF ~ a.ok \/ v = BLANK THEN a
        ELSE IF v = BAD THEN Fail(a)
        ELSE IF i = 0 /\ v = 0 THEN a   \* the undefined record: its implicit weight, as exported
        ELSE IF i \in Weighted(a.s, g)
             THEN CASE e.wc = "ignore"  -> a
                    [] e.wc = "replace" -> IF v < 0 THEN Fail(a)
                         ELSE [a EXCEPT !.s.wt = (@ \ { << g, i, WeightOf(a.s, g, i) >> }) \union { << g, i, v >> }]
                    [] OTHER            -> Fail(a)
             ELSE IF v < 0 \/ i = 0 THEN Fail(a)
                  ELSE [a EXCEPT !.s.wt = @ \union { << g, i, v >> }, !.nw = @ + 1]
      weights(a, i, row) == FoldLeft(LAMBDA x, k : IF k \in wcols THEN weight(x, i, k, row[3][k]) ELSE x,
                                     a, [ k \in DOMAIN e.dw |-> k ])
      step(a, row) ==
        LET id == IF e.hasid THEN row[1] ELSE NOID
            lab == row[2] IN
        IF e.lab = "all" /\ ~ AllNonEmpty(lab) THEN a
        ELSE IF id # NOID
             THEN IF ~ HasId(a.s, id) THEN Fail(a)
                  ELSE IF e.lab = "all" /\ lab # LabOf(a.s, id)
                       THEN CASE e.lc = "ignore"  -> weights(a, id, row)
                              [] e.lc = "replace" ->
                                   IF id = 0 \/ FindLab(a.s, lab) # {} THEN Fail(a)
                                   ELSE weights([a EXCEPT !.s = SetLab(a.s, id, lab), !.nr = @ + 1], id, row)
                              [] OTHER            -> Fail(a)
                       ELSE weights(a, id, row)
             ELSE IF e.lab = "none" THEN Fail(a)
                  ELSE IF FindLab(a.s, lab) # {} THEN weights(a, Only(FindLab(a.s, lab)), row)
                       ELSE weights([a EXCEPT !.s = InsertRec(a.s, lab), !.nl = @ + 1], a.s.used + 1, row)
      r  == Loop(e.rows, step, [ok |-> TRUE, s |-> s, nl |-> 0, nr |-> 0, nw |-> 0])
      s1 == IF r.nl + r.nr > 0 THEN LoadGran(r.s) ELSE r.s
      s2 == IF r.nl > 0 THEN LinksDown(SetIh(s1)) ELSE s1
      s3 == IF r.nl + r.nw > 0 THEN GroupsExact(s2) ELSE s2
  IN  IF missing \/ s.cols = << >> \/ e.lab = "part" \/ unknown \/ ~ r.ok THEN ERR(s) ELSE OK(s3)

InsIndexOld(s, e) ==
  LET step(a, row) == LET lab == row[2] IN
        IF ~ AllNonEmpty(lab) \/ FindLab(a.s, lab) # {} THEN a
        ELSE [a EXCEPT !.s = InsertRec(a.s, lab), !.nl = @ + 1]
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s, nl |-> 0])
  IN  IF e.lab # "all" \/ s.cols = << >> THEN ERR(s)
      ELSE IF r.nl = 0 THEN OK(s) ELSE OK(LinksDown(GroupsDown(LoadGran(SetIh(r.s)))))

(* merging record j into record i *)
SumShares(S) == IF \E m \in S : m[7] = NULLP THEN NULLP ELSE Min({ SCALE, SumBy(S, LAMBDA m : m[7]) })
Merge(s, i, j) ==
  LET w  == { x \in s.wt : x[2] \in { i, j } }
      gs == { x[1] : x \in w }
      mm == { x \in s.map : x[4] \in { i, j } }
      ks == { << x[1], x[2], x[3], x[5] >> : x \in mm }
      grpw(g) == { x \in w : x[1] = g }
      grpm(k) == { x \in mm : x[1] = k[1] /\ x[2] = k[2] /\ x[3] = k[3] /\ x[5] = k[4] }
  IN  [s EXCEPT
        !.wt  = (@ \ w) \union { << g, i, SumBy(grpw(g), LAMBDA x : x[3]) >> : g \in gs },
        !.map = (@ \ mm) \union { << k[1], k[2], k[3], i, k[4],
                                     SumBy(grpm(k), LAMBDA x : x[6]), SumShares(grpm(k)) >> : k \in ks },
        !.idx = { r \in @ : r[1] # j }]

UpdIndex(s, e) ==
  LET step(a, row) ==
        LET id == row[1]  lab == row[2]
            other == FindLab(a.s, lab) \ { id } IN
        IF id = NOID \/ ~ AllNonEmpty(lab) THEN a
        ELSE IF ~ HasId(a.s, id) THEN (IF id \in a.gone THEN Fail(a) ELSE a)
        ELSE IF other # {} /\ ~ e.merge THEN Fail(a)
        ELSE IF id = 0 \/ 0 \in other THEN Fail(a)
        ELSE IF other = {} THEN [a EXCEPT !.s = SetLab(a.s, id, lab), !.nu = @ + 1]
        ELSE LET j == Only(other) IN
             [a EXCEPT !.s = SetLab(Merge(a.s, id, j), id, lab), !.nu = @ + 1, !.gone = @ \union { j }]
      r  == Loop(e.rows, step, [ok |-> TRUE, s |-> s, nu |-> 0, gone |-> {}])
      s1 == IF r.nu > 0 THEN SetGran(r.s) ELSE r.s
      s2 == IF r.gone # {} THEN LinksUp(GroupsUp(SetIh(s1))) ELSE s1
  IN  IF ~ e.hasid \/ e.lab # "all" \/ ~ r.ok THEN ERR(s) ELSE OK(s2)

DelRec(a, i) ==
  LET gone == { m \in a.s.map : m[4] = i }
      os   == { m[3] : m \in gone }
      s1   == [a.s EXCEPT !.wt = { w \in @ : w[2] # i }, !.map = @ \ gone,
                          !.idx = { r \in @ : r[1] # i }]
  IN  IF i = 0 \/ \E m \in gone : m[5] # Ones(N(a.s)) THEN Fail(a)
      ELSE [a EXCEPT !.n = @ + 1, !.s = FoldSet(LAMBDA l, x : Refreshed(x, l, os), s1, a.s.lnk)]

DelIndex(s, e) ==
  LET init == [ok |-> TRUE, s |-> s, n |-> 0]
      step(a, row) == IF ~ HasId(a.s, row[1]) \/ LabOf(a.s, row[1]) # row[2] THEN a ELSE DelRec(a, row[1])
      byCrit == FoldLeft(LAMBDA a, i : IF a.ok THEN DelRec(a, i) ELSE a, init,
                         SortedSeq(MatchIds(s, e.crit)))
      r  == IF e.mode = "data" THEN Loop(e.rows, step, init) ELSE byCrit
      s1 == GroupsUp(SetGran(SetIh(r.s)))
      s2 == [s1 EXCEPT !.lnk = { [l EXCEPT ![7] = l[7] \/ LComplete(s1, l), ![8] = LinkHash(s1, l)] : l \in @ }]
  IN  IF \/ e.mode \notin { "data", "crit" }
         \/ (e.mode = "data" /\ (~ e.hasid \/ e.lab # "all"))
         \/ ~ r.ok THEN ERR(s)
      ELSE IF r.n = 0 THEN OK(s) ELSE OK(s2)

---------------------------------------------------------------------------
(* weight groups and weights *)
GroupOf(s, g) == CHOOSE x \in s.grp : x[1] = g
AddWg(s, e) ==
  IF e.name \in GroupNames(s) THEN ERR(s)
  ELSE OK([s EXCEPT !.grp = @ \union { << e.name, e.desc, e.sels, e.complete >> },
                    !.dflt = IF e.dflt = "yes" \/ (e.dflt = "none" /\ s.grp = {}) THEN e.name ELSE @])
(* e.ch: set of <<field, new value>> pairs given as a sequence *)
Change(ch, f, old) == IF \E k \in DOMAIN ch : ch[k][1] = f
                      THEN ch[CHOOSE k \in DOMAIN ch : ch[k][1] = f][2] ELSE old
EditWg(s, e) ==
  IF e.name \notin GroupNames(s) THEN OK(s)
  ELSE LET g == GroupOf(s, e.name)
           new == Change(e.ch, "name", g[1])
           g1 == << new, Change(e.ch, "desc", g[2]), Change(e.ch, "sels", g[3]), Change(e.ch, "complete", g[4]) >>
       IN  IF new # g[1] /\ new \in GroupNames(s) THEN ERR(s)
           ELSE OK([s EXCEPT !.grp = (@ \ { g }) \union { g1 },
                             !.wt = { IF w[1] = g[1] THEN << new, w[2], w[3] >> ELSE w : w \in @ },
                             !.dflt = IF @ = g[1] THEN new ELSE @])
DropWg(s, e) ==
  IF e.name \notin GroupNames(s) THEN OK(s)
  ELSE OK([s EXCEPT !.grp = { g \in @ : g[1] # e.name }, !.wt = { w \in @ : w[1] # e.name },
                    !.dflt = IF @ = e.name THEN "" ELSE @])
SetDflt(s, e) == OK([s EXCEPT !.dflt = e.name])

(* record a row of weight data refers to: <<"no">> skip, or <<"yes", id>>   *)
Target(s, e, row) ==
  IF e.hasid THEN (IF HasId(s, row[1]) /\ LabOf(s, row[1]) = row[2] THEN << "yes", row[1] >> ELSE << "no" >>)
  ELSE LET f == FindLab(s, row[2]) IN IF f = {} THEN << "no" >> ELSE << "yes", Only(f) >>
PutWeight(s, g, i, v) == [s EXCEPT !.wt = { w \in @ : ~ (w[1] = g /\ w[2] = i) } \union { << g, i, v >> }]

InsWeights(s, e) ==
  LET s0 == IF e.g \in GroupNames(s) THEN s
            ELSE [s EXCEPT !.grp = @ \union { << e.g, "", << >>, FALSE >> }]
      step(a, row) ==
        LET v == row[3]  t == Target(a.s, e, row) IN
        IF v \in { BAD, BLANK } \/ t[1] = "no" THEN a
        ELSE LET i == t[2] IN
          IF i = 0 THEN a
          ELSE IF v < 0 THEN Fail(a)
          ELSE IF i \notin Weighted(a.s, e.g)
               THEN [a EXCEPT !.s = PutWeight(a.s, e.g, i, v), !.n = @ + 1]
          ELSE CASE e.oc = "ignore"  -> a
                 [] e.oc = "replace" -> [a EXCEPT !.s = PutWeight(a.s, e.g, i, v)]
                 [] e.oc = "sum"     -> [a EXCEPT !.s = PutWeight(a.s, e.g, i, v + WeightOf(a.s, e.g, i))]
                 [] OTHER            -> Fail(a)
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s0, n |-> 0])
      up == { << g[1], g[2], g[3], IF g[1] = e.g THEN TRUE ELSE g[4] >> : g \in r.s.grp }
  IN  IF e.oc \notin { "abort", "ignore", "replace", "sum" } \/ e.lab # "all" \/ ~ r.ok THEN ERR(s)
      ELSE IF r.n > 0 /\ WComplete(r.s, e.g) THEN OK([r.s EXCEPT !.grp = up]) ELSE OK(r.s)

UpdWeights(s, e) ==
  LET step(a, row) ==
        LET i == row[1]  v == row[3] IN
        IF ~ HasId(a.s, i) \/ LabOf(a.s, i) # row[2] THEN a
        ELSE IF v \in { BAD, BLANK } \/ v < 0 \/ i = 0 THEN Fail(a)
        ELSE [a EXCEPT !.s = PutWeight(a.s, e.g, i, v), !.n = @ + (IF i \in Weighted(a.s, e.g) THEN 0 ELSE 1)]
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s, n |-> 0])
      up == { << g[1], g[2], g[3], IF g[1] = e.g THEN TRUE ELSE g[4] >> : g \in r.s.grp }
  IN  IF ~ e.hasid \/ ~ e.hasval \/ e.lab # "all" \/ e.g \notin GroupNames(s) \/ ~ r.ok THEN ERR(s)
      ELSE IF r.n > 0 /\ WComplete(r.s, e.g) THEN OK([r.s EXCEPT !.grp = up]) ELSE OK(r.s)

DelWeights(s, e) ==
  LET ids == IF e.mode = "crit" THEN MatchIds(s, e.crit)
             ELSE { r[1] : r \in { x \in SeqSet(e.rows) : HasId(s, x[1]) /\ LabOf(s, x[1]) = x[2] } }
      gone == { w \in s.wt : w[1] = e.g /\ w[2] \in ids }
      down == { << g[1], g[2], g[3], IF g[1] = e.g THEN FALSE ELSE g[4] >> : g \in s.grp }
  IN  IF \/ e.mode \notin { "data", "crit" } \/ e.g \notin GroupNames(s)
         \/ (e.mode = "data" /\ (~ e.hasid \/ e.lab # "all")) THEN ERR(s)
      ELSE IF gone = {} THEN OK(s) ELSE OK([s EXCEPT !.wt = @ \ gone, !.grp = down])

---------------------------------------------------------------------------
(* links: references (C25) and edits *)
RefLinks(s, ref) ==
  LET exact == { l \in s.lnk : l[1] = ref }
      hint  == { l \in s.lnk : l[3] # "" /\ (l[3] = ref \/ (~ EndsW(ref, ".toron") /\ l[3] = ref \o ".toron")) }
      pre   == { l \in s.lnk : StartsW(l[1], ref) }
  IN  IF ref = "" THEN {}
      ELSE IF exact # {} THEN exact
      ELSE IF hint # {} THEN hint
      ELSE IF Len(ref) >= 7 THEN pre ELSE {}
(* the set holding the one link meant, or {} when there is none *)
Resolve(s, ref, nm) ==
  LET L == RefLinks(s, ref)
      named == { l \in L : l[2] = nm }
      dfl   == { l \in L : l[6] }
  IN  IF Cardinality({ l[1] : l \in L }) # 1 THEN {}
      ELSE IF nm # "" THEN named
      ELSE IF Cardinality(L) = 1 THEN L
      ELSE dfl

AddLink(s, e) ==
  LET others == { l \in s.lnk : l[1] = e.sp }
      d == e.dflt = "yes" \/ (e.dflt = "none" /\ others = {})
      demote == { IF d /\ l[1] = e.sp THEN [l EXCEPT ![6] = FALSE] ELSE l : l \in s.lnk }
  IN  IF \E l \in others : l[2] = e.nm THEN ERR(s)
      ELSE OK([s EXCEPT !.lnk = demote \union
               { << e.sp, e.nm, e.hint, e.desc, e.sels, d, e.lc, NOHASH >> }])
EditLink(s, e) ==
  LET R == Resolve(s, e.ref, e.nm) IN
  IF R = {} THEN ERR(s)
  ELSE LET l == Only(R)
           new == Change(e.ch, "name", l[2])
           d  == Change(e.ch, "is_default", l[6])
           l1 == [l EXCEPT ![2] = new, ![3] = Change(e.ch, "hint", l[3]), ![4] = Change(e.ch, "desc", l[4]),
                           ![5] = Change(e.ch, "sels", l[5]), ![6] = d, ![7] = Change(e.ch, "lc", l[7])]
           rest == { IF d /\ x[1] = l[1] /\ Change(e.ch, "is_default", FALSE) THEN [x EXCEPT ![6] = FALSE] ELSE x
                     : x \in s.lnk \ { l } }
       IN  IF \E x \in s.lnk \ { l } : x[1] = l[1] /\ x[2] = new THEN ERR(s)
           ELSE OK([s EXCEPT !.lnk = rest \union { l1 },
                      !.map = { IF m[1] = l[1] /\ m[2] = l[2] THEN [m EXCEPT ![2] = new] ELSE m : m \in @ }])
DropLink(s, e) ==
  LET R == Resolve(s, e.ref, e.nm) IN
  IF R = {} THEN ERR(s)
  ELSE LET l == Only(R) IN
       OK([s EXCEPT !.lnk = @ \ { l }, !.map = { m \in @ : ~ (m[1] = l[1] /\ m[2] = l[2]) }])

---------------------------------------------------------------------------
(* mappings.  Level <<-1>> stands for a missing level.                      *)
NOLEVEL == << -1 >>
SameKey(m, l, o, i, lv) == m[1] = l[1] /\ m[2] = l[2] /\ m[3] = o /\ m[4] = i /\ m[5] = lv
AddMap(a, l, o, i, lv, v) ==
  IF \/ v \in { BAD, BLANK } \/ v < 0 \/ lv = NOLEVEL \/ ~ HasId(a.s, i) \/ (o = 0 /\ i = 0)
     \/ \E m \in a.s.map : SameKey(m, l, o, i, lv)
  THEN Fail(a)
  ELSE [a EXCEPT !.s.map = @ \union { << l[1], l[2], o, i, lv, v, NULLP >> }, !.n = @ + 1]
(* Row: <<other id, id, level, value>> *)
InsMap2(s, e) ==
  LET R == Resolve(s, e.ref, e.nm)
      l == Only(R)
      step(a, row) ==
        IF row[3] # NOLEVEL /\ (row[3] \notin Structure(s) \/ BitCount(row[3]) = 0) THEN a
        ELSE IF row[3] = NOLEVEL /\ Zeros(N(s)) \notin Structure(s) THEN a
        ELSE IF row[1] = 0 /\ row[2] = 0 THEN a
        ELSE AddMap(a, l, row[1], row[2], row[3], row[4])
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s, n |-> 0])
  IN  IF R = {} \/ ~ r.ok THEN ERR(s)
      ELSE IF r.n = 0 THEN OK(s) ELSE OK(RelinkExact(r.s, l))
(* Row: <<other id, value, id, labels, level>> *)
MapRowSkipped(s, row) ==
  \/ ~ HasId(s, row[3]) \/ LabOf(s, row[3]) # row[4]
  \/ row[5] # NOLEVEL /\ BitCount(row[5]) > 0 /\ row[5] \notin Structure(s)
InsMap(s, e) ==
  LET R == Resolve(s, e.ref, e.nm)
      l == Only(R)
      step(a, row) == IF MapRowSkipped(a.s, row) THEN a ELSE AddMap(a, l, row[1], row[3], row[5], row[2])
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s, n |-> 0])
  IN  IF R = {} \/ e.lab # "all" \/ ~ e.hdr \/ ~ r.ok THEN ERR(s)
      ELSE IF r.n = 0 THEN OK(s) ELSE OK(RelinkExact(r.s, l))
UpdMap(s, e) ==
  LET R == Resolve(s, e.ref, e.nm)
      l == Only(R)
      step(a, row) ==
        IF MapRowSkipped(a.s, row) THEN a
        ELSE LET f == { m \in a.s.map : m[1] = l[1] /\ m[2] = l[2] /\ m[3] = row[1] /\ m[4] = row[3] } IN
          IF f = {} THEN AddMap(a, l, row[1], row[3], row[5], row[2])
          ELSE LET m == Only(f)
                   m1 == [m EXCEPT ![5] = row[5], ![6] = row[2]] IN
               IF row[2] \in { BAD, BLANK } \/ row[2] < 0 \/ row[5] = NOLEVEL THEN Fail(a)
               ELSE [a EXCEPT !.s.map = (@ \ { m }) \union { m1 }, !.u = @ + 1]
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s, n |-> 0, u |-> 0])
  IN  IF R = {} \/ e.lab # "all" \/ ~ e.hdr \/ ~ r.ok THEN ERR(s)
      ELSE IF r.n > 0 THEN OK(RelinkExact(r.s, l))
      ELSE IF r.u > 0 THEN OK(Refreshed(r.s, l, OtherIds(r.s, l)))
      ELSE OK(s)
CritBits(s, crit) == BitsOf(crit)
(* data rows: <<other id, value, id, labels>> *)
DelMap(s, e) ==
  LET R == Resolve(s, e.ref, e.nm)
      l == Only(R)
      full == Ones(N(s))
      step(a, row) ==
        IF ~ HasId(a.s, row[3]) \/ LabOf(a.s, row[3]) # row[4] THEN a
        ELSE LET f == { m \in a.s.map : m[1] = l[1] /\ m[2] = l[2] /\ m[3] = row[1] /\ m[4] = row[3] } IN
          IF f = {} THEN a
          ELSE IF row[2] \in { BAD, BLANK } THEN Fail(a)
          ELSE LET m == Only(f) IN
               IF m[6] # row[2] \/ m[5] # full THEN a
               ELSE [a EXCEPT !.s.map = @ \ { m }, !.n = @ + 1]
      byData == Loop(e.rows, step, [ok |-> TRUE, s |-> s, n |-> 0])
      gone == { m \in Maps(s, l) : m[4] \in MatchIds(s, e.crit) /\ SubBits(m[5], CritBits(s, e.crit)) }
      byCrit == [ok |-> TRUE, s |-> [s EXCEPT !.map = @ \ gone], n |-> Cardinality(gone)]
      r == IF e.mode = "data" THEN byData ELSE byCrit
  IN  IF \/ R = {} \/ e.mode \notin { "data", "crit" }
         \/ (e.mode = "data" /\ (e.lab # "all" \/ ~ e.hdr)) \/ ~ r.ok THEN ERR(s)
      ELSE IF r.n = 0 THEN OK(s) ELSE OK(RelinkExact(r.s, l))
Reify(s, e) ==
  LET R == Resolve(s, e.ref, e.nm)
      l == Only(R)
      full == Ones(N(s))
      hit(m) == /\ m[1] = l[1] /\ m[2] = l[2] /\ m[5] # full
                /\ e.mode = "crit" => m[4] \in MatchIds(s, e.crit) /\ SubBits(m[5], CritBits(s, e.crit))
      map1 == { IF hit(m) THEN [m EXCEPT ![5] = full] ELSE m : m \in s.map }
      mkey(m) == << m[1], m[2], m[3], m[4], m[5] >>
      clash == Cardinality({ mkey(m) : m \in map1 }) < Cardinality(s.map)
  IN  IF R = {} \/ clash THEN ERR(s) ELSE OK([s EXCEPT !.map = map1])

---------------------------------------------------------------------------
(* quantities.  Row: <<domain, labels, attribute pairs, value>>             *)
QtyAt(s, lab, at) == { q \in s.qty : q[1] = lab /\ q[2] = at }
InsQ2(s, e) ==
  LET used == SeqSet(s.attrs) \intersect SeqSet(e.acols)
      step(a, row) ==
        LET at  == { p \in SeqSet(row[3]) : p[1] \in used /\ p[2] # "" }
            lab == row[2]
            v   == row[4]
            old == QtyAt(a.s, lab, at)
            s1  == [a.s EXCEPT !.loc = @ \union { lab }, !.ag = @ \union { at }]
            put(x) == [a EXCEPT !.s = [s1 EXCEPT !.qty = (@ \ old) \union { << lab, at, x >> }]] IN
        IF e.hasdom /\ row[1] # s.dom THEN Fail(a)
        ELSE IF at = {} THEN a
        ELSE IF BitsOf(lab) \notin Structure(s) /\ ~ e.aip THEN Fail(a)
        ELSE IF MatchIds(s, lab) = {} /\ ~ e.ail THEN Fail(a)
        ELSE IF old = {} THEN (IF v \in { BAD, BLANK } THEN Fail(a) ELSE put(v))
        ELSE CASE e.oe = "ignore"  -> [a EXCEPT !.s = s1]
               [] e.oe = "replace" -> IF v \in { BAD, BLANK } THEN Fail(a) ELSE put(v)
               [] e.oe = "sum"     -> IF v \in { BAD, BLANK } THEN Fail(a) ELSE put(v + Only(old)[3])
               [] OTHER            -> Fail(a)
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s])
  IN  IF s.attrs = << >> \/ e.lab # "all" \/ ~ e.hasval \/ ~ r.ok THEN ERR(s) ELSE OK(r.s)
(* older loader: attributes named by the caller, no validation              *)
InsQ(s, e) ==
  LET useddom == s.dom # ""
      names == SeqSet(e.attrs) \ (IF useddom THEN { "domain" } ELSE {})
      step(a, row) ==
        LET at  == { p \in SeqSet(row[3]) : p[1] \in names /\ p[2] # "" }
            lab == row[2]  v == row[4] IN
        IF useddom /\ row[1] # s.dom THEN a
        ELSE IF at = {} THEN a
        ELSE IF QtyAt(a.s, lab, at) # {} \/ v \in { BAD, BLANK } THEN Fail(a)
        ELSE [a EXCEPT !.s.loc = @ \union { lab }, !.s.ag = @ \union { at }, !.s.qty = @ \union { << lab, at, v >> }]
      r == Loop(e.rows, step, [ok |-> TRUE, s |-> s])
  IN  IF \/ e.lab # "all" \/ ~ e.hasval \/ (useddom /\ ~ e.hasdom)
         \/ ~ (names \subseteq SeqSet(e.acols)) \/ ~ r.ok THEN ERR(s) ELSE OK(r.s)

NoRecord(s, lab)  == MatchIds(s, lab) = {}
Unmatched(s, lab) == BitsOf(lab) \notin Structure(s) \/ NoRecord(s, lab)
UsedAg(s) == { a \in s.ag : \E q \in s.qty : q[2] = a }
DelQwi(s, e) ==
  LET s1 == [s EXCEPT !.qty = { q \in @ : ~ NoRecord(s, q[1]) }]
      s2 == [s1 EXCEPT !.loc = { x \in @ : \E q \in s1.qty : q[1] = x }]
  IN  OK([s2 EXCEPT !.ag = UsedAg(s2)])
DelUnm(s, e) ==
  LET s1 == [s EXCEPT !.qty = { q \in @ : ~ Unmatched(s, q[1]) }, !.loc = { x \in @ : ~ Unmatched(s, x) }]
  IN  OK([s1 EXCEPT !.ag = UsedAg(s1)])

---------------------------------------------------------------------------
(* Apply.  "same": an event that must not change anything (reads, saving,   *)
(* reopening, operations that are interrupted or fail).                     *)
Apply(s, e) ==
  CASE e.op = "add_cols"   -> AddCols(s, e)
    [] e.op = "ren_cols"   -> RenCols(s, e)
    [] e.op = "drop_cols"  -> DropCols(s, e)
    [] e.op = "ord_lab"    -> OrdLab(s, e)
    [] e.op = "ord_attr"   -> OrdAttr(s, e)
    [] e.op = "set_domain" -> SetDomain(s, e)
    [] e.op = "set_attrs"  -> SetAttrs(s, e)
    [] e.op = "add_pdef"   -> AddPdef(s, e)
    [] e.op = "add_pdefs"  -> AddPdefs(s, e)
    [] e.op = "drop_pdefs" -> DropPdefs(s, e)
    [] e.op = "ins_index"  -> InsIndex(s, e)
    [] e.op = "ins_index_old" -> InsIndexOld(s, e)
    [] e.op = "upd_index"  -> UpdIndex(s, e)
    [] e.op = "del_index"  -> DelIndex(s, e)
    [] e.op = "add_wg"     -> AddWg(s, e)
    [] e.op = "edit_wg"    -> EditWg(s, e)
    [] e.op = "drop_wg"    -> DropWg(s, e)
    [] e.op = "set_dflt"   -> SetDflt(s, e)
    [] e.op = "ins_wt"     -> InsWeights(s, e)
    [] e.op = "upd_wt"     -> UpdWeights(s, e)
    [] e.op = "del_wt"     -> DelWeights(s, e)
    [] e.op = "add_link"   -> AddLink(s, e)
    [] e.op = "edit_link"  -> EditLink(s, e)
    [] e.op = "drop_link"  -> DropLink(s, e)
    [] e.op = "ins_map2"   -> InsMap2(s, e)
    [] e.op = "ins_map"    -> InsMap(s, e)
    [] e.op = "upd_map"    -> UpdMap(s, e)
    [] e.op = "del_map"    -> DelMap(s, e)
    [] e.op = "reify"      -> Reify(s, e)
    [] e.op = "ins_q2"     -> InsQ2(s, e)
    [] e.op = "ins_q"      -> InsQ(s, e)
    [] e.op = "del_qwi"    -> DelQwi(s, e)
    [] e.op = "del_unm"    -> DelUnm(s, e)
    [] OTHER               -> OK(s)

---------------------------------------------------------------------------
(* Invariants every reachable state satisfies (checked on the model and on  *)
(* every state observed from the code).                                     *)
Inv_C07(s) ==
  /\ HasId(s, 0) /\ LabOf(s, 0) = [ k \in 1..N(s) |-> "-" ]
  /\ \A a, b \in s.idx : (a[1] = b[1] \/ (a[2] = b[2] /\ N(s) > 0)) => a = b
  /\ \A r \in s.idx : AllNonEmpty(r[2]) /\ Len(r[2]) = N(s) /\ r[1] >= 0
  /\ s.ih = SortedSeq(Ids(s))
Inv_C09(s) ==
  /\ \A d \in s.pd : Len(d) = N(s)
  /\ MinGen(s.pd, N(s)) = s.pd
  /\ (s.cols # << >> /\ s.pd # {}) => Ones(N(s)) \in Closure(s.pd, N(s))
  /\ s.pd # {} => Structure(s) = Closure(s.pd, N(s))
  /\ \A x, y \in s.st : x[1] = y[1] => x = y
Inv_C10(s) == \A x \in s.st : Abs(x[2] - Gran(s, x[1])) <= 3
Inv_C12(s) == \A w \in s.wt : w[3] >= 0 /\ w[2] # 0
Inv_C23(s) ==
  /\ \A w \in s.wt : w[1] \in GroupNames(s) /\ HasId(s, w[2])
  /\ \A m \in s.map : HasId(s, m[4]) /\ \E l \in s.lnk : l[1] = m[1] /\ l[2] = m[2]
  /\ \A q \in s.qty : q[1] \in s.loc /\ q[2] \in s.ag
  /\ s.dflt # "" => s.dflt \in GroupNames(s)
Inv_C05(s) == \A a, b \in s.lnk : a[1] = b[1] /\ a[6] /\ b[6] => a = b
(* shares add up to one (up to rounding), or none has been calculated       *)
Inv_C04(s) == \A m \in s.map :
  LET same == { x \in s.map : x[1] = m[1] /\ x[2] = m[2] /\ x[3] = m[3] } IN
  IF m[3] = 0 THEN m[7] = 0 \/ m[7] = NULLP
  ELSE \/ \A x \in same : x[7] = NULLP
       \/ (\A x \in same : x[7] >= 0) /\ Abs(SumBy(same, LAMBDA x : x[7]) - SCALE) <= 2 * Cardinality(same)
Inv_C16(s) ==
  /\ SeqSet(s.disp) = SeqSet(s.cols) /\ NoDup(s.disp) /\ NoDup(s.cols) /\ NoDup(s.attrs)
  /\ \A x \in s.loc : Len(x) = N(s)
  /\ \A m \in s.map : Len(m[5]) = N(s)
  /\ SeqSet(s.cols) \intersect SeqSet(s.attrs) = {}
  /\ SeqSet(s.cols) \intersect RESERVED = {}
Inv_C05lc(s) == \A l \in s.lnk : l[7] => LComplete(s, l)
=============================================================================
