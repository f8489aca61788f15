------------------------------- MODULE Compare -------------------------------
(* Reading observed states and tables, and comparing states part by part.    *)
EXTENDS DataSpace

PairSet(q) == { q[k] : k \in DOMAIN q }
ToState(j, used) ==
  [ dom |-> j.dom, cols |-> j.cols, disp |-> j.disp, attrs |-> j.attrs,
    idx |-> SeqSet(j.idx), used |-> MaxOf({ used } \union { j.idx[k][1] : k \in DOMAIN j.idx }, 0),
    ih |-> j.ih, grp |-> SeqSet(j.grp), dflt |-> j.dflt, wt |-> SeqSet(j.wt),
    lnk |-> SeqSet(j.lnk), map |-> SeqSet(j.map), pd |-> SeqSet(j.pd), st |-> SeqSet(j.st),
    loc |-> SeqSet(j.loc), ag |-> { PairSet(j.ag[k]) : k \in DOMAIN j.ag },
    qty |-> { << j.qty[k][1], PairSet(j.qty[k][2]), j.qty[k][3] >> : k \in DOMAIN j.qty },
    dup |-> SeqSet(j.dup) ]
(* the state after an event: the components it changed, over the state before *)
Observed(x, d, used) ==
  LET has(f) == f \in DOMAIN d IN
  [ dom  |-> IF has("dom") THEN d.dom ELSE x.dom,
    cols |-> IF has("cols") THEN d.cols ELSE x.cols,
    disp |-> IF has("disp") THEN d.disp ELSE x.disp,
    attrs |-> IF has("attrs") THEN d.attrs ELSE x.attrs,
    idx  |-> IF has("idx") THEN SeqSet(d.idx) ELSE x.idx,
    used |-> MaxOf({ used } \union (IF has("idx") THEN { d.idx[k][1] : k \in DOMAIN d.idx } ELSE {}), 0),
    ih   |-> IF has("ih") THEN d.ih ELSE x.ih,
    grp  |-> IF has("grp") THEN SeqSet(d.grp) ELSE x.grp,
    dflt |-> IF has("dflt") THEN d.dflt ELSE x.dflt,
    wt   |-> IF has("wt") THEN SeqSet(d.wt) ELSE x.wt,
    lnk  |-> IF has("lnk") THEN SeqSet(d.lnk) ELSE x.lnk,
    map  |-> IF has("map") THEN SeqSet(d.map) ELSE x.map,
    pd   |-> IF has("pd") THEN SeqSet(d.pd) ELSE x.pd,
    st   |-> IF has("st") THEN SeqSet(d.st) ELSE x.st,
    loc  |-> IF has("loc") THEN SeqSet(d.loc) ELSE x.loc,
    ag   |-> IF has("ag") THEN { PairSet(d.ag[k]) : k \in DOMAIN d.ag } ELSE x.ag,
    qty  |-> IF has("qty") THEN { << d.qty[k][1], PairSet(d.qty[k][2]), d.qty[k][3] >> : k \in DOMAIN d.qty } ELSE x.qty,
    dup  |-> IF has("dup") THEN SeqSet(d.dup) ELSE x.dup ]

---------------------------------------------------------------------------
(* comparing two states, component by component *)
NoShare(M) == { SubSeq(m, 1, 6) : m \in M }
SharesAgree(A, B) == \A a \in A : \A b \in B :
  SubSeq(a, 1, 6) = SubSeq(b, 1, 6) =>
     (a[7] = b[7] \/ (a[7] >= 0 /\ b[7] >= 0 /\ Abs(a[7] - b[7]) <= 4))
Bits(S) == { x[1] : x \in S }
GranAgree(A, B) == \A a \in A : \A b \in B : a[1] = b[1] => Abs(a[2] - b[2]) <= 3
LKey(S)  == { << l[1], l[2], l[3], l[4], l[5] >> : l \in S }
LPart(S, k) == { << l[1], l[2], l[k] >> : l \in S }
GKey(S)  == { << g[1], g[2], g[3] >> : g \in S }
GFlag(S) == { << g[1], g[4] >> : g \in S }
Diff(a, b) ==
  (IF a.dom = b.dom THEN {} ELSE { "dom" }) \union
  (IF a.cols = b.cols THEN {} ELSE { "cols" }) \union
  (IF a.disp = b.disp THEN {} ELSE { "disp" }) \union
  (IF a.attrs = b.attrs THEN {} ELSE { "attrs" }) \union
  (IF a.idx = b.idx THEN {} ELSE { "idx" }) \union
  (IF a.ih = b.ih THEN {} ELSE { "ih" }) \union
  (IF GKey(a.grp) = GKey(b.grp) THEN {} ELSE { "grp" }) \union
  (IF GFlag(a.grp) = GFlag(b.grp) THEN {} ELSE { "gcomp" }) \union
  (IF a.dflt = b.dflt THEN {} ELSE { "dflt" }) \union
  (IF a.wt = b.wt THEN {} ELSE { "wt" }) \union
  (IF LKey(a.lnk) = LKey(b.lnk) THEN {} ELSE { "lnk" }) \union
  (IF LPart(a.lnk, 6) = LPart(b.lnk, 6) THEN {} ELSE { "ldef" }) \union
  (IF LPart(a.lnk, 7) = LPart(b.lnk, 7) THEN {} ELSE { "lcomp" }) \union
  (IF LPart(a.lnk, 8) = LPart(b.lnk, 8) THEN {} ELSE { "lhash" }) \union
  (IF NoShare(a.map) = NoShare(b.map) THEN {} ELSE { "map" }) \union
  (IF SharesAgree(a.map, b.map) THEN {} ELSE { "share" }) \union
  (IF a.pd = b.pd THEN {} ELSE { "pd" }) \union
  (IF Bits(a.st) = Bits(b.st) THEN {} ELSE { "st" }) \union
  (IF GranAgree(a.st, b.st) THEN {} ELSE { "gran" }) \union
  (IF a.loc = b.loc THEN {} ELSE { "loc" }) \union
  (IF a.ag = b.ag THEN {} ELSE { "ag" }) \union
  (IF a.qty = b.qty THEN {} ELSE { "qty" }) \union
  (IF b.dup = {} THEN {} ELSE { "dup" })


---------------------------------------------------------------------------
Dom1(x)  == IF x.dom = "" THEN << >> ELSE << x.dom >>
DomH(x)  == IF x.dom = "" THEN << >> ELSE << "domain" >>
(* a listing of quantities: header, then one row per stored quantity        *)
Listing(x, rd, Q, only) ==
  LET nd == Len(Dom1(x))
      n  == N(x)
      na == Len(rd.hdr) - nd - n - 1
      atnames == SubSeq(rd.hdr, nd + n + 1, nd + n + na)
      parse(row) == << SubSeq(row, nd + 1, nd + n),
                       { << atnames[k], row[nd + n + k] >> : k \in { j \in 1..na : row[nd + n + j] # "" } },
                       row[Len(row)] >>
      proj(q) == << q[1], { p \in q[2] : p[1] \in only }, q[3] >>
  IN  /\ na >= 0
      /\ SubSeq(rd.hdr, 1, nd + n) = DomH(x) \o x.cols
      /\ rd.hdr[Len(rd.hdr)] = "quantity"
      /\ NoDup(atnames) /\ SeqSet(atnames) \subseteq only
      /\ { p[1] : p \in UNION { q[2] : q \in Q } } \intersect only \subseteq SeqSet(atnames)
      /\ Len(rd.rows) = Cardinality(Q)
      /\ \A k \in DOMAIN rd.rows : Len(rd.rows[k]) = Len(rd.hdr) /\ SubSeq(rd.rows[k], 1, nd) = Dom1(x)
      /\ { parse(rd.rows[k]) : k \in DOMAIN rd.rows } = { proj(q) : q \in Q }
AllAt(x) == { p[1] : p \in UNION x.ag }
Ambig(x, lv) == IF BitCount(lv) = 0 THEN << >>
                ELSE SelectSeq(x.cols, LAMBDA c : lv[Pos(x.cols, c)] = 0)
---------------------------------------------------------------------------
(* The printed summary of a space.                                           *)
(*   parts   <<granularity in millionths or -1, column names>> per line      *)
(*   wts     <<group, default?, incomplete?>>                                *)
(*   lnks    <<space shown as, { <<link, default?, incomplete?>> }>>         *)
Shown(text) == IF text = << >> THEN << "None" >> ELSE text
DefCols(s, b) == SelectSeq(s.disp, LAMBDA c : Has(s.cols, c) /\ b[Pos(s.cols, c)] = 1)
InfoText(x, rd) ==
  LET n == N(x)
      P == x.pd \union (IF n > 0 THEN { Ones(n) } ELSE {})
      gran(b) == IF \E z \in x.st : z[1] = b THEN (CHOOSE z \in x.st : z[1] = b)[2] ELSE -1
      line(k) == rd.parts[k]
      others == { l[1] : l \in x.lnk }
      \* a space is shown by the hint of one of its links, or by the start of its id
      names(u) == { IF l[3] = "" THEN "[" \o SubSeq(u, 1, Min({ 7, Len(u) })) \o "]" ELSE l[3] : l \in { m \in x.lnk : m[1] = u } }
      has(u) == { << l[2], l[6], ~ l[7] >> : l \in { m \in x.lnk : m[1] = u } }
      part(ok, name) == IF ok THEN {} ELSE { "info:" \o name }
  IN  part(rd.dom = (IF x.dom = "" THEN "None" ELSE x.dom), "dom") \union
      part(/\ Len(rd.parts) = Cardinality(P)
           /\ { line(k)[2] : k \in DOMAIN rd.parts } = { DefCols(x, b) : b \in P }
           /\ n > 0 => line(1)[2] = x.disp, "parts") \union
      part(\A k \in DOMAIN rd.parts : \A b \in P :
              line(k)[2] = DefCols(x, b) => /\ (line(k)[1] = -1) = (gran(b) = -1)
                                            /\ Abs(line(k)[1] - gran(b)) <= 600, "gran") \union
      part(/\ Len(rd.wts) = Cardinality(x.grp)
           /\ SeqSet(rd.wts) = { << g[1], g[1] = x.dflt, ~ g[4] >> : g \in x.grp }, "weights") \union
      part(rd.attrs = Shown(x.attrs), "attrs") \union
      part(/\ Len(rd.lnks) = Cardinality(others)
           /\ \E f \in [ DOMAIN rd.lnks -> others ] :
                /\ \A j, k \in DOMAIN f : f[j] = f[k] => j = k
                /\ \A k \in DOMAIN f : rd.lnks[k][1] \in names(f[k]) /\ SeqSet(rd.lnks[k][2]) = has(f[k])
                                       /\ Len(rd.lnks[k][2]) = Cardinality(has(f[k])), "links")
=============================================================================
