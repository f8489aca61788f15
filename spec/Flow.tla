-------------------------------- MODULE Flow --------------------------------
(* What flows out of a data space.  A reader is made from one space, may be *)
(* translated from space to space along links, and is finally listed,       *)
(* pivoted or exported.                                                     *)
(*                                                                          *)
(* A world entry is [uid, s, gsel, lsel]: a data space state (DataSpace.tla) *)
(* together with the meaning of its groups' and links' selectors:           *)
(* gsel {<<group, selectors>>}, lsel {<<other uid, link, selectors>>}.      *)
(*                                                                          *)
(* The reader's content is a set of contributions                           *)
(*   [id, at, v, q, p, n]: record, attributes, value, source, the way it took, *)
(* units of rounding allowed.  Values are in units of 1/VS.                          *)
EXTENDS DataSpace

VS == 50400

DomPair(s)   == IF s.dom = "" THEN {} ELSE { << "domain", s.dom >> }
Group(s, g)  == CHOOSE x \in s.grp : x[1] = g
FinestGran(s) == Max({ x[2] : x \in s.st })
GranOf(s, b) == (CHOOSE x \in s.st : x[1] = b)[2]
Readable(s, q) == BitsOf(q[1]) \in Structure(s)

(* the weight group a quantity with these attributes is divided by          *)
WeightChoice(sp, at) ==
  LET s == sp.s
      cands == { c \in sp.gsel : c[2] # << >> /\ c[1] \in GroupNames(s) /\ Group(s, c[1])[4] }
  IN  Choose1(cands, at, s.dflt)
DefaultReady(s) == s.dflt # "" /\ Group(s, s.dflt)[4]

(* dividing one quantity: {<<id, value>>}, or "none" / "unweighted"         *)
Whole(s, q) == GranOf(s, BitsOf(q[1])) = FinestGran(s)
Receivers(s, q) == MatchIds(s, q[1])
Parts(sp, q) ==
  LET s == sp.s
      R == Receivers(s, q)
      D == R \ { 0 }
      g == WeightChoice(sp, q[2] \union DomPair(s))
      have == Weighted(s, g)
      tot == SumBy(D, LAMBDA i : WeightOf(s, g, i))
      v == q[3] * VS
  IN  IF R = {} THEN [ ok |-> FALSE, why |-> "nomatch", parts |-> {} ]
      ELSE IF Whole(s, q) THEN [ ok |-> TRUE, why |-> "", parts |-> { << Max(R), v >> } ]
      ELSE IF ~ (D \subseteq have) THEN [ ok |-> FALSE, why |-> "weight", parts |-> {} ]
      ELSE IF tot > 0
           THEN [ ok |-> TRUE, why |-> "",
                  parts |-> { << i, SMulDiv(v, WeightOf(s, g, i), tot) >> : i \in D } ]
      ELSE IF D = {} THEN [ ok |-> TRUE, why |-> "", parts |-> { << 0, v >> } ]
      ELSE [ ok |-> TRUE, why |-> "", parts |-> { << i, SMulDiv(v, 1, Cardinality(D)) >> : i \in D } ]

(* reading a space: filters is a sequence of selectors (empty: everything), *)
(* by the set of attributes to keep (empty: all)                            *)
Selected(s, filters) ==
  { q \in s.qty : /\ Readable(s, q)
                  /\ (filters = << >> \/ \E k \in DOMAIN filters : SelMatch(filters[k], q[2])) }
KeepAt(s, at, by) == LET full == at \union DomPair(s)
                     IN  IF by = {} THEN full ELSE { p \in full : p[1] \in by \/ p[1] = "domain" }
ReadSpace(sp, filters, by) ==
  LET s == sp.s
      Q == Selected(s, filters)
      P == [ q \in Q |-> Parts(sp, q) ]
      bad == { P[q].why : q \in { x \in Q : ~ P[x].ok } }
  IN  IF ~ DefaultReady(s) THEN [ ok |-> FALSE, why |-> { "default" }, c |-> {} ]
      ELSE IF bad # {} THEN [ ok |-> FALSE, why |-> bad, c |-> {} ]
      ELSE [ ok |-> TRUE, why |-> {},
             c |-> UNION { { [ id |-> p[1], at |-> KeepAt(s, q[2], by), v |-> p[2], q |-> q, p |-> << >>, n |-> 1 ]
                             : p \in P[q].parts } : q \in Q } ]

(* reading the weights of one group as quantities                           *)
ReadWeights(sp, g, ids) ==
  LET s == sp.s IN
  { [ id |-> i, at |-> { << "weight", g >> }, v |-> WeightOf(s, g, i) * VS, q |-> << g, i >>, p |-> << >>, n |-> 1 ]
    : i \in (IF g \in GroupNames(s) THEN Weighted(s, g) \intersect ids ELSE {}) }

(* links of target space b that lead from a space                           *)
LinksFrom(b, uid) == { l \in b.s.lnk : l[1] = uid }
LinkSel(b, l) == LET S == { x \in b.lsel : x[1] = l[1] /\ x[2] = l[2] }
                 IN IF S = {} THEN << >> ELSE Only(S)[3]
(* ids: the ids the source's index has now                                  *)
CurrentLinks(b, uid, ids) == { l \in LinksFrom(b, uid) : l[8] = SortedSeq(ids) }
LinkChoice(b, links, default, at) ==
  Choose1({ << l, LinkSel(b, l) >> : l \in { x \in links : x[7] /\ LinkSel(b, x) # << >> } }, at, default)
TranslateBy(b, choose(_), C) ==
  LET maps(c) == { m \in Maps(b.s, choose(c.at)) : m[3] = c.id }
      lost == { c \in C : c.id # 0 /\ maps(c) = {} }
  IN  IF lost # {} THEN [ ok |-> FALSE, why |-> { "unmapped" }, c |-> {} ]
      ELSE [ ok |-> TRUE, why |-> {},
             c |-> UNION { IF c.id = 0 THEN { c }
                           ELSE { [ c EXCEPT !.id = m[4], !.v = SMulDiv(c.v, m[7], SCALE), !.n = c.n + 2 + (Abs(c.v) \div 1400000),
                                             !.p = c.p \o << << c.id >> \o m[5] >> ] : m \in maps(c) } : c \in C } ]
(* translating a reader to space b                                          *)
Translate(a, b, C) ==
  LET links == CurrentLinks(b, a.uid, Ids(a.s))
      dflts == { l \in links : l[6] }
      default == Only(dflts)
      \* links are chosen by the reader's attribute groups
  IN  IF dflts = {} THEN [ ok |-> FALSE, why |-> { "link" }, c |-> {} ]
      ELSE TranslateBy(b, LAMBDA at : LinkChoice(b, links, default, at), C)
(* translating a stream of quantities (space.select_weights() >> b)         *)
TranslateStream(a, b, C) ==
  LET all == LinksFrom(b, a.uid)
      links == CurrentLinks(b, a.uid, Ids(a.s))
      dflts == { l \in all : l[6] }
      default == Only(dflts)
      choose(at) == LinkChoice(b, links, default, at)
      maps(c) == { m \in Maps(b.s, choose(c.at)) : m[3] = c.id }
  IN  IF dflts = {} \/ ~ default[7] \/ default \notin links THEN [ ok |-> FALSE, why |-> { "link" }, c |-> {} ]
      ELSE [ ok |-> TRUE, why |-> {},
             c |-> UNION { { [ c EXCEPT !.id = m[4], !.v = SMulDiv(c.v, m[7], SCALE), !.n = c.n + 2 + (Abs(c.v) \div 1400000),
                                        !.p = c.p \o << << c.id >> \o m[5] >> ] : m \in maps(c) } : c \in C } ]

---------------------------------------------------------------------------
(* a reader's numbers *)
Keys(C)      == { << c.id, c.at >> : c \in C }
At(C, k)     == { c \in C : << c.id, c.at >> = k }
Total(C)     == SumBy(C, LAMBDA c : c.v)
Slack(C)     == 8 + SumBy(C, LAMBDA c : 2 * c.n)
AttrKeys(C)  == { p[1] : p \in UNION { c.at : c \in C } }

---------------------------------------------------------------------------
(* What must be true of any such flow, whatever the space.                  *)
Near(x, y, d) == Abs(x - y) <= d
(* every stored quantity that is read is handed out completely, to records  *)
(* that agree with its labels, attributes unchanged                         *)
Conserves(sp, filters) ==
  LET r == ReadSpace(sp, filters, {})
      Q == Selected(sp.s, filters)
  IN  r.ok => \A q \in Q :
        LET mine == { c \in r.c : c.q = q }
        IN  /\ mine # {}
            /\ Near(Total(mine), q[3] * VS, Cardinality(mine))
            /\ \A c \in mine : Agrees(LabOf(sp.s, c.id), q[1]) /\ c.at = q[2] \union DomPair(sp.s)
Proportional(sp, filters) ==
  LET r == ReadSpace(sp, filters, {})
  IN  r.ok => \A c, d \in r.c : c.q = d.q /\ c.id # d.id =>
        /\ c.id # 0
        /\ LET g == WeightChoice(sp, c.at)
           IN  \/ Near(c.v * WeightOf(sp.s, g, d.id), d.v * WeightOf(sp.s, g, c.id),
                       WeightOf(sp.s, g, c.id) + WeightOf(sp.s, g, d.id))
TranslationConserves(a, b, C) ==
  LET r == Translate(a, b, C)
  IN  r.ok => /\ \A at \in { c.at : c \in C } :
                   Near(Total({ c \in r.c : c.at = at }), Total({ c \in C : c.at = at }), Slack(r.c))
              /\ { c.at : c \in r.c } = { c.at : c \in C }
              /\ \A c \in C : c.id = 0 => c \in r.c
=============================================================================
