-------------------------------- MODULE Props --------------------------------
(* What a step from state x to state y by event e may and may not do, stated *)
(* per property and independently of how Apply computes the next state.      *)
(* Checked on every transition of the model and on every recorded step.      *)
EXTENDS DataSpace

SameBut(x, y, names) ==
  /\ ("dom" \in names \/ x.dom = y.dom)
  /\ ("cols" \in names \/ x.cols = y.cols)
  /\ ("disp" \in names \/ x.disp = y.disp)
  /\ ("attrs" \in names \/ x.attrs = y.attrs)
  /\ ("idx" \in names \/ x.idx = y.idx)
  /\ ("ih" \in names \/ x.ih = y.ih)
  /\ ("grp" \in names \/ x.grp = y.grp)
  /\ ("dflt" \in names \/ x.dflt = y.dflt)
  /\ ("wt" \in names \/ x.wt = y.wt)
  /\ ("lnk" \in names \/ x.lnk = y.lnk)
  /\ ("map" \in names \/ x.map = y.map)
  /\ ("pd" \in names \/ x.pd = y.pd)
  /\ ("st" \in names \/ x.st = y.st)
  /\ ("loc" \in names \/ x.loc = y.loc)
  /\ ("ag" \in names \/ x.ag = y.ag)
  /\ ("qty" \in names \/ x.qty = y.qty)

Manual(e, f) == e.op \in { "edit_wg", "edit_link" } /\ \E k \in DOMAIN e.ch : e.ch[k][1] = f
Opened(e, f) == e.op = f /\ (IF f = "add_wg" THEN e.complete ELSE e.lc)

(* C05: a link turns complete only when every defined record is mapped, a    *)
(* truly complete one does not stay complete while losing its cover, and at  *)
(* most one link of a space is its default                                   *)
Step_C05(x, e, y) == Manual(e, "lc") \/ Opened(e, "add_link") \/ \A l \in y.lnk :
  l[7] => LComplete(y, l) \/ \E k \in x.lnk : k[1] = l[1] /\ k[7] /\ ~ LComplete(x, k)
(* C06 *)
Step_C06(x, e, y) == Manual(e, "complete") \/ Opened(e, "add_wg") \/ \A g \in y.grp :
  /\ g[4] => WComplete(y, g[1]) \/ \E h \in x.grp : h[4] /\ ~ WComplete(x, h[1])
  /\ (/\ \E h \in x.grp : h[1] = g[1] /\ h[4] /\ WComplete(x, h[1])
      /\ x.idx = y.idx /\ x.wt = y.wt
      /\ e.op # "edit_wg") => g[4]
(* C07 *)
Step_C07(x, e, y) ==
  /\ \A r \in y.idx : r[1] \in Ids(x) \/ r[1] > x.used
  /\ e.op \notin { "ins_index", "ins_index_old" } => Ids(y) \subseteq Ids(x)
  /\ e.op \notin { "upd_index", "del_index" } => Ids(x) \subseteq Ids(y)
  /\ (e.op \notin { "ins_index", "upd_index", "add_cols", "drop_cols" })
       => \A r \in y.idx : r[1] \in Ids(x) => r \in x.idx
(* C12 *)
Step_C12(x, e, y) == e.op \in { "ins_wt", "upd_wt", "del_wt" } =>
  /\ SameBut(x, y, { "grp", "wt" })
  /\ { w \in y.wt : w[1] # e.g } = { w \in x.wt : w[1] # e.g }
  /\ { g \in y.grp : g[1] # e.g } = { g \in x.grp : g[1] # e.g }
  /\ e.op # "del_wt" => Weighted(x, e.g) \subseteq Weighted(y, e.g)
  /\ e.op = "del_wt" => y.wt \subseteq x.wt
(* C16 *)
Step_C16(x, e, y) ==
  CASE e.op = "ren_cols" -> SameBut(x, y, { "cols", "disp" }) /\ N(x) = N(y)
    [] e.op = "ord_lab"  -> SameBut(x, y, { "disp" }) /\ SeqSet(x.disp) = SeqSet(y.disp)
    [] e.op = "ord_attr" -> SameBut(x, y, { "attrs" }) /\ SeqSet(x.attrs) = SeqSet(y.attrs)
    [] e.op \in { "set_domain", "set_attrs" } -> SameBut(x, y, { "dom", "attrs" })
    [] e.op = "add_cols" ->
         /\ SameBut(x, y, { "cols", "disp", "idx", "map", "pd", "st", "loc", "qty" })
         /\ IsPrefix(x.cols, y.cols) /\ IsPrefix(x.disp, y.disp)
         /\ { << r[1], SubSeq(r[2], 1, N(x)) >> : r \in y.idx } = x.idx
         /\ \A r \in y.idx : \A k \in (N(x) + 1)..N(y) : r[2][k] = "-"
         /\ { << SubSeq(q[1], 1, N(x)), q[2], q[3] >> : q \in y.qty } = x.qty
         /\ Cardinality(x.qty) = Cardinality(y.qty)
         /\ { [m EXCEPT ![5] = SubSeq(@, 1, N(x))] : m \in y.map } = x.map
    [] e.op = "drop_cols" ->
         /\ SameBut(x, y, { "cols", "disp", "idx", "map", "pd", "st", "loc", "qty" })
         /\ y.cols = SelectSeq(x.cols, LAMBDA c : c \notin SeqSet(e.cols))
         /\ Ids(x) = Ids(y) /\ Cardinality(x.idx) = Cardinality(y.idx)
         /\ Cardinality(x.qty) = Cardinality(y.qty) /\ Cardinality(x.map) = Cardinality(y.map)
         /\ \A r \in x.idx : \A k \in DOMAIN y.cols : LabOf(y, r[1])[k] = r[2][Pos(x.cols, y.cols[k])]
    [] OTHER -> x.cols = y.cols /\ x.disp = y.disp /\ x.attrs = y.attrs /\ x.dom = y.dom
(* C17, C18 *)
Step_C17(x, e, y) ==
  /\ e.op \in { "ins_q", "ins_q2" } =>
       /\ SameBut(x, y, { "loc", "ag", "qty" })
       /\ x.loc \subseteq y.loc /\ x.ag \subseteq y.ag
       /\ \A q \in x.qty : q \in y.qty \/ \E k \in DOMAIN e.rows : e.rows[k][2] = q[1]
       /\ \A q \in y.qty : q \in x.qty \/ \E k \in DOMAIN e.rows : e.rows[k][2] = q[1]
       /\ \A p, q \in y.qty : p[1] = q[1] /\ p[2] = q[2] => p = q
       /\ e.op = "ins_q2" /\ ~ e.ail => \A q \in y.qty : q \in x.qty \/ ~ NoRecord(x, q[1])
       /\ e.op = "ins_q2" /\ ~ e.aip => \A q \in y.qty : q \in x.qty \/ BitsOf(q[1]) \in Structure(x)
  /\ e.op \notin { "ins_q", "ins_q2", "del_qwi", "del_unm", "add_cols", "drop_cols" } =>
       x.qty = y.qty /\ x.loc = y.loc /\ x.ag = y.ag
Step_C18(x, e, y) == e.op \in { "del_qwi", "del_unm" } =>
  /\ SameBut(x, y, { "loc", "ag", "qty" })
  /\ y.qty \subseteq x.qty
  /\ \A q \in x.qty : q \in y.qty <=> ~ (IF e.op = "del_qwi" THEN NoRecord(x, q[1]) ELSE Unmatched(x, q[1]))
  /\ y.ag = { q[2] : q \in y.qty }
(* C19: totals are carried along *)
WSum(s, g)    == SumBy({ w \in s.wt : w[1] = g }, LAMBDA w : w[3])
MSum(s, k)    == SumBy({ m \in s.map : << m[1], m[2], m[3] >> = k }, LAMBDA m : m[6])
MKeys(s)      == { << m[1], m[2], m[3] >> : m \in s.map }
Step_C19(x, e, y) ==
  /\ e.op = "upd_index" =>
       /\ SameBut(x, y, { "idx", "ih", "grp", "wt", "lnk", "map", "st" })
       /\ \A g \in GroupNames(x) : WSum(x, g) = WSum(y, g)
       /\ MKeys(x) = MKeys(y)
       /\ \A k \in MKeys(x) : MSum(x, k) = MSum(y, k)
  /\ e.op = "del_index" =>
       /\ SameBut(x, y, { "idx", "ih", "grp", "wt", "lnk", "map", "st" })
       /\ y.idx \subseteq x.idx
       /\ y.wt = { w \in x.wt : w[2] \in Ids(y) }
       /\ { SubSeq(m, 1, 6) : m \in y.map } = { SubSeq(m, 1, 6) : m \in { n \in x.map : n[4] \in Ids(y) } }
       /\ \A m \in x.map : m[4] \notin Ids(y) => m[5] = Ones(N(x))
(* C22 *)
NoShareX(s) == { SubSeq(m, 1, 6) : m \in s.map }
Step_C22(x, e, y) ==
  /\ e.op \in { "ins_map", "ins_map2", "upd_map", "del_map", "reify" } =>
       LET R == Resolve(x, e.ref, e.nm)
           mine(m) == R # {} /\ m[1] = Only(R)[1] /\ m[2] = Only(R)[2] IN
       /\ SameBut(x, y, { "map", "lnk" })
       /\ { m \in x.map : ~ mine(m) } = { m \in y.map : ~ mine(m) }
       /\ \A l \in x.lnk : l \in y.lnk \/ l \in R
       /\ e.op \in { "ins_map", "ins_map2" } => NoShareX(x) \subseteq NoShareX(y)
       /\ e.op = "del_map" => NoShareX(y) \subseteq NoShareX(x)
       /\ e.op = "reify" => { [m EXCEPT ![5] = << >>] : m \in x.map } = { [m EXCEPT ![5] = << >>] : m \in y.map }
  /\ e.op \in { "ins_index", "ins_index_old", "ins_wt", "upd_wt", "del_wt", "add_wg", "edit_wg", "drop_wg",
                "ins_q", "ins_q2", "add_pdef", "add_pdefs", "drop_pdefs", "ren_cols" } => x.map = y.map
(* C23 *)
Step_C23(x, e, y) ==
  /\ e.op = "drop_wg" =>
       /\ SameBut(x, y, { "grp", "wt", "dflt" })
       /\ y.grp = { g \in x.grp : g[1] # e.name } /\ y.wt = { w \in x.wt : w[1] # e.name }
       /\ y.dflt = IF x.dflt = e.name THEN "" ELSE x.dflt
  /\ e.op = "drop_link" =>
       /\ SameBut(x, y, { "lnk", "map" })
       /\ Cardinality(x.lnk \ y.lnk) = 1 /\ y.lnk \subseteq x.lnk
       /\ \A l \in x.lnk \ y.lnk : y.map = { m \in x.map : ~ (m[1] = l[1] /\ m[2] = l[2]) }
  /\ e.op # "drop_wg" /\ e.op # "edit_wg" => GroupNames(x) \subseteq GroupNames(y)
  /\ e.op # "drop_link" => Cardinality(y.lnk) >= Cardinality(x.lnk)
(* C25: what a reference means never depends on anything but the links      *)
Step_C25(x, e, y) == e.op \in { "edit_link", "drop_link" } =>
  \A l \in x.lnk : (\E k \in y.lnk : k[1] = l[1] /\ k[2] = l[2]) \/ Resolve(x, e.ref, e.nm) = { l }
(* C26 *)
Step_C26(x, e, y) == e.op \in { "ins_index", "ins_index_old" } =>
  /\ SameBut(x, y, { "idx", "ih", "grp", "wt", "lnk", "pd", "st" })
  /\ GroupNames(x) = GroupNames(y)
  /\ \A r \in y.idx : r[1] \notin Ids(x) => \E k \in DOMAIN e.rows : e.rows[k][2] = r[2]
  /\ \A w \in x.wt : w \in y.wt \/ (e.op = "ins_index" /\ e.wc = "replace" /\ Has(e.dw, w[1]))
  /\ \A w \in y.wt : w \in x.wt \/ (e.op = "ins_index" /\ Has(e.dw, w[1]) /\ (e.wsel = "all" \/ Has(e.wnames, w[1])))
  /\ (e.op = "ins_index" /\ e.lc = "replace") \/ x.idx \subseteq y.idx

Steps(x, e, y) ==
  (IF Step_C05(x, e, y) THEN {} ELSE { "step:C05" }) \union
  (IF Step_C06(x, e, y) THEN {} ELSE { "step:C06" }) \union
  (IF Step_C07(x, e, y) THEN {} ELSE { "step:C07" }) \union
  (IF Step_C12(x, e, y) THEN {} ELSE { "step:C12" }) \union
  (IF Step_C16(x, e, y) THEN {} ELSE { "step:C16" }) \union
  (IF Step_C17(x, e, y) THEN {} ELSE { "step:C17" }) \union
  (IF Step_C18(x, e, y) THEN {} ELSE { "step:C18" }) \union
  (IF Step_C19(x, e, y) THEN {} ELSE { "step:C19" }) \union
  (IF Step_C22(x, e, y) THEN {} ELSE { "step:C22" }) \union
  (IF Step_C23(x, e, y) THEN {} ELSE { "step:C23" }) \union
  (IF Step_C25(x, e, y) THEN {} ELSE { "step:C25" }) \union
  (IF Step_C26(x, e, y) THEN {} ELSE { "step:C26" })
=============================================================================
