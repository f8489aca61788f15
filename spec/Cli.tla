--------------------------------- MODULE Cli ---------------------------------
(* The command line: a set of files, commands on them, and the tables they   *)
(* print and load.                                                           *)
(*                                                                           *)
(* Files are a function from names to [uid, born, s]: the identity of the    *)
(* space a file holds, when it was made, and its content.  A command e names *)
(* its files (e.files), the names their backups get (e.bk), and its          *)
(* arguments.                                                                *)
(* Index codes are opaque texts; codes is the set of <<text, uid, id>> seen. *)
EXTENDS Match, Compare

NewSpace(d) ==
  [ dom |-> d, cols |-> << >>, disp |-> << >>, attrs |-> << >>, idx |-> { << 0, << >> >> },
    used |-> 0, ih |-> << 0 >>, grp |-> {}, dflt |-> "", wt |-> {}, lnk |-> {}, map |-> {},
    pd |-> {}, st |-> {}, loc |-> {}, ag |-> {}, qty |-> {}, dup |-> {} ]
Reading(e) == e.cmd \in { "exp_index", "exp_qty", "exp_map", "info" }
Done(F)    == [ ok |-> TRUE, F |-> F ]
Stopped(F) == [ ok |-> FALSE, F |-> F ]

(* an operation of DataSpace.tla on one of the files *)
On(a, f, ev) ==
  IF ~ a.ok THEN a
  ELSE LET r == Apply(a.F[f].s, ev)
       IN  IF r.ok THEN Done([a.F EXCEPT ![f].s = r.s]) ELSE Stopped(a.F)
Put(F, f, x) == (f :> x) @@ F
BackedUp(F, e) ==
  IF Reading(e) \/ ~ e.backup THEN F
  ELSE FoldLeft(LAMBDA G, k : Put(G, e.bk[k], F[e.files[k]]), F, [ k \in DOMAIN e.files |-> k ])
Dflt(e) == IF e.default THEN "yes" ELSE "none"

---------------------------------------------------------------------------
(* names, weights, links, partitions, attributes *)
AddLinkTo(a, tail, hint, head, e) ==
  On(a, head, [ op |-> "add_link", sp |-> a.F[tail].uid, nm |-> e.nm, hint |-> hint, desc |-> e.desc,
                sels |-> e.sels, lc |-> FALSE, dflt |-> Dflt(e) ])
CmdAddLink(F, e) ==
  LET f1 == e.files[1]  f2 == e.files[2]
      r == IF e.dir \in { "both", "right" } THEN AddLinkTo(Done(F), f1, e.hints[1], f2, e) ELSE Done(F)
  IN  IF e.dir \in { "both", "left" } THEN AddLinkTo(r, f2, e.hints[2], f1, e) ELSE r
Drop(F, tail, head, e) == On(Done(F), head, [ op |-> "drop_link", ref |-> F[tail].uid, nm |-> e.nm ])
CmdRemLink(F, e) ==
  LET f1 == e.files[1]  f2 == e.files[2]
      l == IF e.dir \in { "both", "left" } THEN Drop(F, f2, f1, e) ELSE Stopped(F)
      r == IF e.dir \in { "both", "right" } THEN Drop(l.F, f1, f2, e) ELSE Stopped(l.F)
  IN  [ ok |-> l.ok \/ r.ok, F |-> r.F ]
CmdAddAttr(F, e) ==
  LET f == e.files[1]
      new == SelectSeq(e.items, LAMBDA x : ~ Has(F[f].s.attrs, x))
  IN  IF new = << >> THEN Done(F) ELSE On(Done(F), f, [ op |-> "set_attrs", attrs |-> F[f].s.attrs \o new ])
(* description, selectors and default are changed one after another *)
CmdUpdWeight(F, e) ==
  LET f == e.files[1]
      x == F[f].s
      g == GroupOf(x, e.nm)
      edit(a, ch) == On(a, f, [ op |-> "edit_wg", name |-> e.nm, ch |-> ch ])
      a1 == IF e.desc = "" THEN Done(F) ELSE edit(Done(F), << << "desc", e.desc >> >>)
      a2 == IF e.addsel = << >> /\ e.remsel = << >> THEN a1
            ELSE edit(a1, << << "sels", e.sels >> >>)
      a3 == IF e.default THEN On(a2, f, [ op |-> "set_dflt", name |-> e.nm ]) ELSE a2
  IN  IF e.nm \notin GroupNames(x) THEN Stopped(F)
      \* e.sels: the selectors to be stored, in order
      ELSE IF (e.addsel # << >> \/ e.remsel # << >>) /\
              (SeqSet(e.sels) # (SeqSet(g[3]) \union SeqSet(e.addsel)) \ SeqSet(e.remsel) \/ ~ NoDup(e.sels))
           THEN Stopped(F)
      ELSE a3

---------------------------------------------------------------------------
(* index tables: rows <<code, labels, weights>> *)
CodeOf(codes, uid, text) == { c[3] : c \in { z \in codes : z[1] = text /\ z[2] = uid } }
CmdImpIndex(F, e, codes) ==
  LET f == e.files[1]
      R == e.rows
      good(k) == e.code /\ CodeOf(codes, F[f].uid, R[k][1]) # {}
      found == \E k \in 1..Min({ 9, Len(R) }) : good(k)
      wrong == found /\ \E k \in DOMAIN R : R[k][1] # "" /\ ~ good(k)
      stray == ~ found /\ e.code /\ e.head = "index_id"
      ev == [ op |-> "ins_index", hasid |-> found, lab |-> e.lab, dw |-> e.dw, wsel |-> "all", wnames |-> << >>,
              lc |-> e.lc, wc |-> e.wc,
              rows |-> [ k \in DOMAIN R |->
                 << IF found /\ good(k) THEN Only(CodeOf(codes, F[f].uid, R[k][1])) ELSE NOID, R[k][2], R[k][3] >> ] ]
  IN  IF e.empty \/ wrong \/ stray THEN Stopped(F) ELSE On(Done(F), f, ev)
\* the table printed for a space, as the rows of a table to load
IndexRows(x, uid, groups, code(_, _)) ==
  { << code(uid, r[1]), r[2], [ k \in DOMAIN groups |-> IF r[1] \in Weighted(x, groups[k]) THEN WeightOf(x, groups[k], r[1])
                                ELSE IF r[1] = 0 THEN 0 ELSE BLANK ] >> : r \in x.idx }

---------------------------------------------------------------------------
(* mapping tables: rows <<code, cells, value, code, cells>> *)
CmdImpMap(F, e, codes) ==
  LET f1 == e.files[1]  f2 == e.files[2]
      a == F[f1].s      b == F[f2].s
      R == e.rows
      hasR == Resolve(b, F[f1].uid, e.nm) # {}
      hasL == Resolve(a, F[f2].uid, e.nm) # {}
      nolink == CASE e.dir = "both" -> ~ hasR /\ ~ hasL [] e.dir = "right" -> ~ hasR [] OTHER -> ~ hasL
      right == hasR /\ e.dir # "left"
      left  == hasL /\ e.dir # "right"
      \* the code columns that belong to a file
      seen(uid, side) == \E k \in 1..Min({ 256, Len(R) }) : CodeOf(codes, uid, R[k][IF side = 1 THEN 1 ELSE 4]) # {}
      at(uid) == { side \in { 1, 2 } : e.has[side] /\ seen(uid, side) }
      p1 == at(F[f1].uid)
      p2 == at(F[f2].uid)
      \* the columns of a side, and of a side without the code column
      hdr(side) == (IF e.has[side] THEN << e.heads[side] >> ELSE << >>) \o e.cols[side]
      sideOf1 == IF p1 # {} THEN Only(p1) ELSE IF p2 # {} THEN 3 - Only(p2) ELSE 1
      sideOf2 == 3 - sideOf1
      form == /\ ~ (p1 # {} /\ p2 # {} /\ p1 = p2)
              /\ p1 = {} => hdr(sideOf1) = a.cols
              /\ p2 = {} => hdr(sideOf2) = b.cols
              /\ NoDup(hdr(1)) /\ NoDup(hdr(2))
      cells(k, side) == R[k][IF side = 1 THEN 2 ELSE 5]
      text(k, side) == R[k][IF side = 1 THEN 1 ELSE 4]
      v(k) == R[k][3]
      wrong == \/ p1 # {} /\ \E k \in DOMAIN R : text(k, sideOf1) # "" /\ CodeOf(codes, F[f1].uid, text(k, sideOf1)) = {}
               \/ p2 # {} /\ \E k \in DOMAIN R : text(k, sideOf2) # "" /\ CodeOf(codes, F[f2].uid, text(k, sideOf2)) = {}
      id(k, uid, side, p) == IF p # {} /\ text(k, side) # "" THEN Only(CodeOf(codes, uid, text(k, side))) ELSE NOID
      id1(k) == id(k, F[f1].uid, sideOf1, p1)
      id2(k) == id(k, F[f2].uid, sideOf2, p2)
      lab1(k) == NamedLab(a, e.cols[sideOf1], cells(k, sideOf1))
      lab2(k) == NamedLab(b, e.cols[sideOf2], cells(k, sideOf2))
      l1(k) == IF id1(k) # NOID THEN Ones(N(a)) ELSE BitsOf(lab1(k))
      l2(k) == IF id2(k) # NOID THEN Ones(N(b)) ELSE BitsOf(lab2(k))
      blank1(k) == id1(k) = NOID /\ BitCount(BitsOf(lab1(k))) = 0
      blank2(k) == id2(k) = NOID /\ BitCount(BitsOf(lab2(k))) = 0
      \* the report of an unmatched record says nothing
      K == { k \in DOMAIN R : ~ (v(k) = BLANK /\ (blank1(k) \/ blank2(k))) }
      bad == \/ \E k \in K : l1(k) \notin Structure(a) \/ l2(k) \notin Structure(b) \/ v(k) \in { BAD, BLANK } \/ v(k) < 0
             \/ a.dflt = "" \/ b.dflt = ""
      \* the code columns stand on one side of the value column
      beside == e.beside /\ p1 # {} /\ p2 # {}
      refused == nolink \/ beside \/ ~ form \/ wrong \/ bad
      m1 == MatchSide(a, K, id1, lab1, l1, e.lim, e.ov, FALSE)
      m2 == MatchSide(b, K, id2, lab2, l2, e.lim, e.ov, FALSE)
      stored(f) == { k \in DOMAIN f : ~ (k[1] = 0 /\ k[2] = 0) /\ BitCount(k[3]) > 0 }
      to2 == Mappings(a, m1, b, m2, l2, v)
      to1 == Mappings(b, m2, a, m1, l1, v)
      new2 == [ k \in stored(to2) |-> to2[k] ]
      new1 == [ k \in stored(to1) |-> to1[k] ]
      clash(x, uid, f) == \E m \in x.map : m[1] = uid /\ m[2] = e.nm /\ << m[3], m[4], m[5] >> \in DOMAIN f
      put2 == right /\ ~ clash(b, F[f1].uid, new2)
      put1 == left /\ (right => put2) /\ ~ clash(a, F[f2].uid, new1)
      part == ~ e.incomplete /\ ~ FullyMatched(a, m1, b, m2)
  IN  IF e.beside /\ ~ beside THEN [ ok |-> TRUE, any |-> TRUE, put1 |-> FALSE, put2 |-> FALSE, new1 |-> << >>, new2 |-> << >> ]
      ELSE IF refused THEN [ ok |-> FALSE, any |-> FALSE, put1 |-> FALSE, put2 |-> FALSE, new1 |-> << >>, new2 |-> << >> ]
      \* levels that tell equally much may be matched in either order
      ELSE IF Tied(a, K, l1) \/ Tied(b, K, l2)
           THEN [ ok |-> TRUE, any |-> TRUE, put1 |-> FALSE, put2 |-> FALSE, new1 |-> << >>, new2 |-> << >> ]
      ELSE IF part THEN [ ok |-> FALSE, any |-> FALSE, put1 |-> FALSE, put2 |-> FALSE, new1 |-> << >>, new2 |-> << >> ]
      ELSE [ ok |-> (right => put2) /\ (left => put1), any |-> FALSE, put1 |-> put1, put2 |-> put2,
             new1 |-> new1, new2 |-> new2 ]

---------------------------------------------------------------------------
Usable(F, e) == \A k \in DOMAIN e.files : e.files[k] \in DOMAIN F
CmdInit(F, e) ==
  IF e.files[1] \in DOMAIN F \/ e.blocked THEN Stopped(F)
  ELSE Done(Put(F, e.files[1], [ uid |-> e.uid, born |-> e.born, s |-> NewSpace(e.dom) ]))
(* the outcome of a command other than imp_map: [ok, F] *)
Command(F0, e, codes) ==
  LET f == e.files[1]
      F == IF e.cmd = "init" \/ ~ Usable(F0, e) THEN F0 ELSE BackedUp(F0, e)
      on(ev) == On(Done(F), f, ev)
  IN  IF e.usage THEN Stopped(F0)
      ELSE IF e.cmd = "init" THEN CmdInit(F0, e)
      ELSE IF ~ Usable(F0, e) THEN Stopped(F0)
      ELSE CASE e.cmd = "add_label" -> IF e.items = << >> THEN Stopped(F) ELSE on([ op |-> "add_cols", cols |-> e.items ])
             [] e.cmd = "add_weight" -> on([ op |-> "add_wg", name |-> e.nm, desc |-> e.desc, sels |-> e.sels,
                                             complete |-> FALSE, dflt |-> Dflt(e) ])
             [] e.cmd = "add_part"   -> on([ op |-> "add_pdef", def |-> e.items ])
             [] e.cmd = "add_attr"   -> CmdAddAttr(F, e)
             [] e.cmd = "add_link"   -> CmdAddLink(F, e)
             [] e.cmd = "upd_label"  -> IF e.k = 0 THEN Stopped(F) ELSE on([ op |-> "ord_lab", x |-> e.nm, k |-> e.k ])
             [] e.cmd = "upd_attr"   -> IF e.k = 0 THEN Stopped(F) ELSE on([ op |-> "ord_attr", x |-> e.nm, k |-> e.k ])
             [] e.cmd = "upd_weight" -> CmdUpdWeight(F, e)
             [] e.cmd = "ren_label"  -> on([ op |-> "ren_cols", pairs |-> << << e.nm, e.new >> >> ])
             [] e.cmd = "ren_domain" -> on([ op |-> "set_domain", v |-> e.new ])
             [] e.cmd = "rem_link"   -> CmdRemLink(F, e)
             [] e.cmd = "imp_index"  -> CmdImpIndex(F, e, codes)
             [] e.cmd = "imp_qty"    -> IF e.empty THEN Stopped(F)
                  ELSE on([ op |-> "ins_q2", hasdom |-> e.hasdom, lab |-> e.lab, acols |-> e.acols, hasval |-> e.hasval,
                            ail |-> e.ail, aip |-> e.aip, oe |-> e.oe, rows |-> e.rows ])
             [] e.cmd = "exp_qty"    -> IF F[f].s.attrs = << >> THEN Stopped(F) ELSE Done(F)
             [] e.cmd = "exp_map"    -> IF \E l \in F[e.files[2]].s.lnk : l[1] = F[f].uid /\ l[2] = e.nm THEN Done(F) ELSE Stopped(F)
             [] OTHER -> Done(F)

---------------------------------------------------------------------------
(* what is printed *)
\* the codes seen are one per record
CodesSound(codes) == \A x, y \in codes : (x[1] = y[1]) <=> (x[2] = y[2] /\ x[3] = y[3])
Part(ok, name) == IF ok THEN {} ELSE { name }
OutIndex(x, uid, rd, codes) ==
  LET n == N(x)
      groups == SubSeq(rd.hdr, n + 2, Len(rd.hdr))
      code(u, j) == CHOOSE t \in { z[1] : z \in { y \in codes : y[2] = u /\ y[3] = j } } : TRUE
      all == \A r \in x.idx : \E z \in codes : z[2] = uid /\ z[3] = r[1]
  IN  Part(/\ Len(rd.hdr) = 1 + n + Cardinality(x.grp)
           /\ EndsW(rd.hdr[1], "index_code")
           /\ SubSeq(rd.hdr, 2, n + 1) = x.cols
           /\ SeqSet(groups) = GroupNames(x) /\ NoDup(groups), "out:header") \union
      (IF ~ all THEN { "out:codes" }
       ELSE Part(SeqSet(rd.rows) = IndexRows(x, uid, groups, code) /\ Len(rd.rows) = Cardinality(x.idx), "out:rows"))
\* rows <<code, labels, value, code, labels, ambiguity>>; fm: the stored mappings with values in units of 1/VS
OutMap(a, b, ua, ub, nm, fm, rd, codes) ==
  LET l == CHOOSE y \in b.lnk : y[1] = ua /\ y[2] = nm
      maps == { m \in fm : m[1] = ua /\ m[2] = nm }
      whole == \A m \in maps : m[5] = Ones(N(b))
      lab(z, j) == IF j # NOID /\ HasId(z, j) THEN LabOf(z, j) ELSE [ k \in 1..N(z) |-> "" ]
      want == { << << m[3], lab(a, m[3]), m[4], lab(b, m[4]), IF whole THEN "" ELSE AmbText(b, m[5]) >>, m[6] >> : m \in maps }
              \union { << << 0, lab(a, 0), 0, lab(b, 0), "" >>, 0 >> }
              \union { << << NOID, lab(a, NOID), j, lab(b, j), "" >>, BLANK >> : j \in Unmapped(b, l) }
              \union { << << o, lab(a, o), NOID, lab(b, NOID), "" >>, BLANK >> : o \in Missing(a, b, l) }
      \* a code that was never seen stands for a record that is gone
      id(u, t) == IF t = "" THEN NOID ELSE IF CodeOf(codes, u, t) # {} THEN Only(CodeOf(codes, u, t)) ELSE -77
      gone == { m[3] : m \in maps } \ { c[3] : c \in { z \in codes : z[2] = ua } }
      got  == { << << id(ua, r[1]), r[2], id(ub, r[4]), r[5], r[6] >>, r[3] >> : r \in SeqSet(rd.rows) }
      veil(S) == { IF q[1][1] \in gone THEN << [ q[1] EXCEPT ![1] = -77 ], q[2] >> ELSE q : q \in S }
  IN  Part(/\ Len(rd.hdr) = 3 + N(a) + N(b) + (IF whole THEN 0 ELSE 1)
           /\ EndsW(rd.hdr[1], "index_code") /\ SubSeq(rd.hdr, 2, 1 + N(a)) = a.cols
           /\ rd.hdr[2 + N(a)] = nm /\ EndsW(rd.hdr[3 + N(a)], "index_code")
           /\ SubSeq(rd.hdr, 4 + N(a), 3 + N(a) + N(b)) = b.cols
           /\ whole \/ rd.hdr[Len(rd.hdr)] = "ambiguous_fields", "out:header") \union
      Part(veil(want) = got, "out:rows") \union
      Part(Len(rd.rows) = Cardinality(want), "out:twice")
=============================================================================
