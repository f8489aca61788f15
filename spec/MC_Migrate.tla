------------------------------ MODULE MC_Migrate ------------------------------
(* Every small content of an old file, and the opening of it step by step:    *)
(* tables are rebuilt one after another inside a transaction; the file        *)
(* changes with the last step only, and a failure or crash before it leaves   *)
(* the old content.  Checks that nothing is lost on the way (Faithful) and    *)
(* prints the contents, which are written as real files and opened.           *)
EXTENDS Props, Migrate, Json, IOUtils

PROFILE == IOEnv.PROFILE
MAXQ == IF IOEnv.MAXQ = "3" THEN 3 ELSE 2
EMIT == IOEnv.EMIT = "1"
U == "5dfc1a2b-0001-aaaa"
VARIABLES o,      \* the old content
          file,   \* what the file holds: << "old" >> or << "new", state >>
          work,   \* the content the transaction has made so far
          pc
vars == << o, file, work, pc >>

COLS == << "A", "B" >>
Rows(n) == { << 0, << "-", "-" >> >> } \union { << i, << (<< "a", "b", "c" >>)[i], "x" >> >> : i \in 1..n }
AgT == { << "cat", "t" >> }
AgU == { << "cat", "u" >>, << "a b", "w" >> }
NoDom == [ k |-> "none", d |-> << >> ]
Doms == { NoDom, [ k |-> "map", d |-> << >> ], [ k |-> "map", d |-> << << "domain", "d1" >> >> ],
          [ k |-> "map", d |-> << << "other", "d1" >> >> ],
          [ k |-> "map", d |-> << << "b", "x y" >>, << "domain", "d2" >> >> ], [ k |-> "other", d |-> << >> ] }
Lv == { << -1 >>, << 1, 1 >>, << 1, 0 >> }
Share(R, r) == LET same == { x \in R : x[1] = r[1] }  tot == SumBy(same, LAMBDA x : x[4])
               IN  IF r[1] = 0 THEN 0 ELSE IF tot > 0 THEN MulDiv(SCALE, r[4], tot) ELSE SCALE \div Cardinality(same)

\* R: a set of << other, id, level, value >>, q: a sequence of << labels, attributes, value >>
Content(ver, n, gap, dom, R, q, W, pd) ==
  LET ids == { r[1] : r \in Rows(n) }
      base == [ idx |-> Rows(n), cols |-> COLS, st |-> {}, pd |-> pd ]
      rows == SetToSeq(R)
  IN [ ver |-> ver, domk |-> dom.k, domd |-> dom.d, dom |-> IF ver = "0.3.0" THEN "d3" ELSE "",
       cols |-> COLS, disp |-> COLS,
       attrs |-> IF ver = "0.3.0" THEN << "cat", "a b" >> ELSE << >>,
       idx |-> Rows(n), seq |-> n + gap, ih |-> SortedSeq(ids),
       grp |-> { << "pop", "", << >>, ids \ { 0 } \subseteq { w[1] : w \in W } >> }, dflt |-> "pop",
       wt |-> { << "pop", w[1], w[2] >> : w \in W },
       lnk |-> { << U, "edge", "o.toron", "", << >>, TRUE, ids \ { 0 } \subseteq { r[2] : r \in R },
                    SortedSeq({ 0 } \union { r[1] : r \in R }) >> },
       rel |-> [ k \in DOMAIN rows |-> << U, "edge", rows[k][1], rows[k][2], rows[k][3], rows[k][4], Share(R, rows[k]) >> ],
       pd |-> pd, st |-> { << b, Gran(base, b) >> : b \in Closure(pd, 2) },
       loc |-> { q[k][1] : k \in DOMAIN q }, ag |-> { q[k][2] : k \in DOMAIN q },
       q |-> q, alpha |-> << "a b", "cat" >> ]

Cells == { << l, a, v >> : l \in { << "a", "x" >>, << "b", "" >> }, a \in { AgT, AgU }, v \in { 1, -2, 5 } }
Seqs(S, n) == UNION { [ 1..k -> S ] : k \in 0..n }
Cand(n) == { << x, i, lv, v >> : x \in 0..2, i \in 0..n, lv \in Lv, v \in { 0, 3 } }
Rels(n, k) == { R \in UNION { { { a, b }, { a } } : a \in Cand(n), b \in Cand(n) } \union { {} } :
                \A a, b \in R : a # b => << a[1], a[2] >> # << b[1], b[2] >> }
Full == { << 1, 1 >> }
Contents ==
  CASE PROFILE = "qty" -> { Content("0.2.0", 1, 0, NoDom, {}, q, {}, Full) : q \in Seqs(Cells, MAXQ) }
    [] PROFILE = "maps" -> { Content("0.2.0", n, 1, NoDom, R, << >>, {}, Full) : n \in 1..(MAXQ - 1), R \in Rels(1, 2) }
    [] PROFILE = "props" -> { Content(v, n, g, d, {}, IF a = 0 THEN << >> ELSE << << << "a", "x" >>, IF a = 1 THEN AgT ELSE AgU, 4 >> >>, W, pd)
                              : v \in { "0.2.0", "0.3.0", "0.4.0", "" }, n \in 1..2, g \in { 0, 2 }, d \in Doms, a \in 0..2,
                                W \in { {}, { << 1, 7 >> } }, pd \in { Full, { << 1, 1 >>, << 1, 0 >> } } }

Init == /\ o \in Contents /\ file = << "old" >> /\ pc = "open"
        /\ work = [ none |-> TRUE ]
        /\ IF EMIT THEN PrintT("@@C " \o ToJson(o)) ELSE TRUE
Set(w, f, v) == [ w EXCEPT ![f] = v ]
M == Means(o)
Go(a, b) == pc = a /\ pc' = b /\ UNCHANGED << o, file >>
Next ==
  \/ pc = "open" /\ ~ Migratable(o) /\ pc' = "refused" /\ UNCHANGED << o, file, work >>
  \/ Go("open", "begun") /\ Migratable(o) /\ work' = [ o EXCEPT !.rel = o.rel ]
  \/ Go("begun", "links") /\ work' = work
  \/ Go("links", "maps") /\ work' = Set(work, "rel", SetToSeq(M.map))
  \/ Go("maps", "quantities") /\ work' = Set(work, "q", SetToSeq(M.qty))
  \/ Go("quantities", "names") /\ work' = Set(Set(work, "dom", M.dom), "attrs", M.attrs)
  \/ Go("names", "checked") /\ work' = work
  \/ pc = "checked" /\ pc' = "done" /\ file' = << "new", M >> /\ UNCHANGED << o, work >>
  \/ pc \in { "begun", "links", "maps", "quantities", "names", "checked" } /\ pc' = "failed" /\ UNCHANGED << o, file, work >>

(* what the file holds is the old content or the whole new one *)
Atomic == file = << "old" >> \/ (pc = "done" /\ file = << "new", M >>)
Refusal == pc \in { "refused", "failed" } => file = << "old" >>
(* nothing is lost: stated apart from Means *)
QKeys(q) == { << q[k][1], q[k][2] >> : k \in DOMAIN q }
QSum(q, z) == SumSeq([ k \in DOMAIN q |-> IF << q[k][1], q[k][2] >> = z THEN q[k][3] ELSE 0 ])
Faithful == Migratable(o) =>
  /\ \A z \in QKeys(o.q) : Cardinality({ x \in M.qty : << x[1], x[2] >> = z }) = 1
                           /\ \A x \in M.qty : << x[1], x[2] >> = z => x[3] = QSum(o.q, z)
  /\ { << x[1], x[2] >> : x \in M.qty } = QKeys(o.q)
  /\ SumBy(M.qty, LAMBDA x : x[3]) = SumSeq([ k \in DOMAIN o.q |-> o.q[k][3] ])
  /\ \A k \in DOMAIN o.rel : (o.rel[k][3] # 0 \/ o.rel[k][4] # 0) =>
       \E m \in M.map : SubSeq(m, 1, 4) = SubSeq(o.rel[k], 1, 4) /\ m[6] = o.rel[k][6]
                        /\ (m[5] = o.rel[k][5] \/ (o.rel[k][5] = << -1 >> /\ m[5] = Ones(Len(o.cols))))
  /\ \A m \in M.map : \E k \in DOMAIN o.rel : SubSeq(m, 1, 4) = SubSeq(o.rel[k], 1, 4)
  /\ \A m \in M.map : m[3] # 0 \/ m[4] # 0
  /\ UNION { { p[1] : p \in q[2] } : q \in M.qty } \subseteq { M.attrs[k] : k \in DOMAIN M.attrs }
  /\ NoDup(M.attrs) /\ M.used >= o.seq
  /\ Inv_C04(M) /\ Inv_C07(M) /\ Inv_C09(M) /\ Inv_C10(M) /\ Inv_C16(M) /\ Inv_C23(M)
=============================================================================
