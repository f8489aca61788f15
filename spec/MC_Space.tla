------------------------------- MODULE MC_Space -------------------------------
(* A small data space explored exhaustively.  IOEnv.PROFILE chooses the set  *)
(* of events, IOEnv.DEPTH the number of events after the set-up.  Every      *)
(* explored transition is checked against the invariants and step            *)
(* properties; its history is printed, to be replayed on the real code.      *)
EXTENDS Props, Json, IOUtils

PROFILE == IOEnv.PROFILE
DEPTH   == atoi(IOEnv.DEPTH)
EMIT    == IOEnv.EMIT = "1"

VARIABLES s, hist, n
vars == << s, hist, n >>

C1 == "state"  C2 == "county"
LABS == { << a, b >> : a \in { "A", "B" }, b \in { "x", "y" } }
U1 == "5dfc1a2b-0001-aaaa"   U2 == "5dfc1a2b-0002-bbbb"   U3 == "fileone.toron"
F  == << 1, 1 >>   P  == << 1, 0 >>

Empty == [ dom |-> "", cols |-> << >>, disp |-> << >>, attrs |-> << >>, idx |-> { << 0, << >> >> },
           used |-> 0, ih |-> << 0 >>, grp |-> {}, dflt |-> "", wt |-> {}, lnk |-> {}, map |-> {},
           pd |-> {}, st |-> {}, loc |-> {}, ag |-> {}, qty |-> {}, dup |-> {} ]

(* events *)
AddC(c)          == [ op |-> "add_cols", cols |-> c ]
InsI(rows, dw, lc, wc) == [ op |-> "ins_index", hasid |-> FALSE, lab |-> "all", dw |-> dw, wsel |-> "all",
                            wnames |-> << >>, lc |-> lc, wc |-> wc, rows |-> rows ]
InsId(rows, dw, lc, wc) == [ InsI(rows, dw, lc, wc) EXCEPT !.hasid = TRUE ]
UpdI(rows, merge) == [ op |-> "upd_index", hasid |-> TRUE, lab |-> "all", merge |-> merge, rows |-> rows ]
DelC(crit)       == [ op |-> "del_index", mode |-> "crit", hasid |-> TRUE, lab |-> "all", rows |-> << >>, crit |-> crit ]
DelD(rows)       == [ op |-> "del_index", mode |-> "data", hasid |-> TRUE, lab |-> "all", rows |-> rows, crit |-> << "", "" >> ]
AddW(g, c, d)    == [ op |-> "add_wg", name |-> g, desc |-> "", sels |-> << >>, complete |-> c, dflt |-> d ]
InsW(g, oc, rows) == [ op |-> "ins_wt", g |-> g, oc |-> oc, lab |-> "all", hasid |-> TRUE, rows |-> rows ]
UpdW(g, rows)    == [ op |-> "upd_wt", g |-> g, hasid |-> TRUE, hasval |-> TRUE, lab |-> "all", rows |-> rows ]
DelW(g, crit)    == [ op |-> "del_wt", g |-> g, mode |-> "crit", hasid |-> TRUE, lab |-> "all", rows |-> << >>, crit |-> crit ]
AddL(sp, nm, h, d) == [ op |-> "add_link", sp |-> sp, nm |-> nm, hint |-> h, desc |-> "", sels |-> << >>, dflt |-> d, lc |-> FALSE ]
InsM(ref, nm, rows) == [ op |-> "ins_map2", ref |-> ref, nm |-> nm, rows |-> rows ]
UpdM(ref, nm, rows) == [ op |-> "upd_map", ref |-> ref, nm |-> nm, lab |-> "all", hdr |-> TRUE, rows |-> rows ]
DelM(ref, nm, crit) == [ op |-> "del_map", ref |-> ref, nm |-> nm, mode |-> "crit", lab |-> "all", hdr |-> TRUE, rows |-> << >>, crit |-> crit ]
Rei(ref, nm, mode, crit) == [ op |-> "reify", ref |-> ref, nm |-> nm, mode |-> mode, crit |-> crit ]
InsQ0(rows, ail, aip, oe) == [ op |-> "ins_q2", lab |-> "all", hasval |-> TRUE, hasdom |-> FALSE, acols |-> << "year" >>,
                               ail |-> ail, aip |-> aip, oe |-> oe, rows |-> rows ]
QR(lab, y, v)    == << "", lab, << << "year", y >> >>, v >>
NOROW == << >>

(* set-up scripts *)
Cols == << AddC(<< C1, C2 >>) >>
Recs == Cols \o << AddW("pop", FALSE, "none"),
   InsI(<< << NOID, << "A", "x" >>, << 1 >> >>, << NOID, << "A", "y" >>, << 2 >> >>,
           << NOID, << "B", "x" >>, << 3 >> >> >>, << "pop" >>, "abort", "abort") >>
Linked == Recs \o << [ op |-> "add_pdef", def |-> << C1 >> ], AddL(U1, "edge", "", "none"),
   InsM(U1, "edge", << << 1, 1, F, 2 >>, << 1, 2, F, 1 >>, << 2, 3, P, 5 >> >>) >>
Attrs == Recs \o << [ op |-> "set_attrs", attrs |-> << "year" >> ], [ op |-> "add_pdef", def |-> << C1 >> ] >>

Setup ==
  CASE PROFILE = "index"  -> Recs
    [] PROFILE = "weights" -> Recs
    [] PROFILE = "carry"  -> Linked
    [] PROFILE = "maps"   -> Linked
    [] PROFILE = "links"  -> Recs
    [] PROFILE = "parts"  -> << >>
    [] PROFILE = "qty"    -> Attrs
    [] PROFILE = "load"   -> Cols \o << AddW("pop", FALSE, "none") >>
    [] OTHER              -> << >>

NoW == << >>
Recd(x, i) == IF HasId(x, i) THEN LabOf(x, i) ELSE << "B", "y" >>
Events(x) ==
  CASE PROFILE = "index" ->
        { [ op |-> "r_info" ] } \union
        { InsI(<< << NOID, l, << v >> >> >>, << "pop" >>, "abort", "ignore") : l \in LABS, v \in { 2, BLANK } }
        \union { UpdI(<< << i, l >> >>, m) : i \in 0..4, l \in LABS, m \in BOOLEAN }
        \union { UpdI(<< << 1, << "B", "y" >> >>, << 2, << "A", "x" >> >> >>, m) : m \in BOOLEAN }
        \union { DelC(c) : c \in { << "A", "" >>, << "", "x" >>, << "B", "y" >>, << "A", "y" >>, << "-", "" >> } }
        \union { DelD(<< << i, Recd(x, i) >> >>) : i \in 0..4 }
    [] PROFILE = "carry" ->
        { UpdI(<< << i, l >> >>, m) : i \in 1..3, l \in LABS, m \in BOOLEAN }
        \union { DelD(<< << i, Recd(x, i) >> >>) : i \in 1..4 }
        \union { InsI(<< << NOID, << "B", "y" >>, << 4 >> >> >>, << "pop" >>, "abort", "abort"),
                 InsM(U1, "edge", << << 2, 1, F, 3 >> >>), InsM(U1, "edge", << << 1, 3, F, 0 >> >>),
                 InsM(U1, "edge", << << 3, 4, F, 2 >>, << 0, 1, F, 2 >> >>),
                 Rei(U1, "edge", "all", << "", "" >>) }
    [] PROFILE = "maps" ->
        { InsM(U1, "edge", << << o, i, lv, v >> >>) : o \in { 0, 1, 2 }, i \in { 0, 3 }, lv \in { F, P, << 0, 1 >> }, v \in { 0, 4 } }
        \union { InsM(U1, "edge", << << 3, 1, F, 1 >>, << 3, 2, lv, 1 >> >>) : lv \in { F, P, NOLEVEL } }
        \union { UpdM(U1, "edge", << << 1, v, i, Recd(x, i), lv >> >>) : v \in { 0, 3 }, i \in { 1, 2 }, lv \in { F, P } }
        \union { UpdM(U1, "edge", << << 2, 7, 3, << "B", b >>, F >> >>) : b \in { "x", "y" } }
        \union { DelM(U1, "edge", c) : c \in { << "A", "" >>, << "B", "x" >>, << "A", "x" >>, << "", "x" >> } }
        \union { Rei(U1, "", "crit", c) : c \in { << "A", "" >>, << "B", "" >>, << "A", "x" >> } }
        \union { DelM(U2, "edge", << "A", "" >>), AddL(U2, "edge", "", "none") }
    [] PROFILE = "links" ->
        { [ op |-> "r_info" ] } \union
        { AddL(u, nm, h, d) : u \in { U1, U2 }, nm \in { "edge", "pop" }, h \in { "two.toron" }, d \in { "yes", "none" } }
        \union { AddL(U3, "edge", U1, "no") }
        \union { [ op |-> o, ref |-> r, nm |-> nm ] : o \in { "drop_link", "r_link" },
                 r \in { U1, U2, U3, "two", "two.toron", "5dfc1a2b-0001", "5dfc1a2", "5dfc1a", "fileone", "dfc1a2b-0001" }, nm \in { "", "edge" } }
        \union { [ op |-> "edit_link", ref |-> U1, nm |-> nm, ch |-> << << f, v >> >> ] : nm \in { "", "pop" },
                 f \in { "is_default" }, v \in BOOLEAN }
        \union { [ op |-> "edit_link", ref |-> U1, nm |-> "edge", ch |-> << << "name", "pop" >> >> ],
                 InsM(U1, "edge", << << 1, 1, F, 2 >> >>), InsM(U1, "", << << 1, 2, F, 2 >> >>) }
    [] PROFILE = "weights" ->
        { InsW("pop", oc, << << i, Recd(x, i), v >> >>) : oc \in { "abort", "ignore", "replace", "sum" }, i \in { 0, 1, 4 }, v \in { 5, BAD, -1 } }
        \union { InsW("wB", oc, << << 1, << "A", "x" >>, 1 >>, << 2, << "A", "y" >>, 0 >>, << 3, << "B", "x" >>, 7 >> >>) : oc \in { "abort", "sum" } }
        \union { InsW("wB", "abort", << << 1, << "A", b >>, 1 >> >>) : b \in { "x", "y" } }
        \union { UpdW(g, << << 1, << "A", "x" >>, v >>, << 3, << "B", "x" >>, 2 >> >>) : g \in { "pop", "wB" }, v \in { 0, 6, -2 } }
        \union { DelW(g, c) : g \in { "pop", "wB" }, c \in { << "A", "" >>, << "", "x" >>, << "B", "y" >> } }
        \union { DelC(<< "A", "y" >>), UpdI(<< << 1, << "A", "y" >> >> >>, TRUE),
                 InsI(<< << NOID, << "B", "y" >>, << BLANK >> >> >>, << "pop" >>, "abort", "abort"),
                 [ op |-> "drop_wg", name |-> "pop" ], [ op |-> "set_dflt", name |-> "" ],
                 AddW("wB", FALSE, "none"), AddW("wB", TRUE, "yes"),
                 [ op |-> "edit_wg", name |-> "pop", ch |-> << << "name", "wB" >> >> ] }
    [] PROFILE = "parts" ->
        { [ op |-> "r_info" ] } \union
        { AddC(c) : c \in { << C1 >>, << C2 >>, << "zone" >>, << C1, C2, "zone" >>, << C1, C1 >>, << "domain" >> } }
        \union { [ op |-> "drop_cols", cols |-> c ] : c \in { << C1 >>, << C2 >>, << "zone" >>, << C1, C2 >> } }
        \union { [ op |-> "ren_cols", pairs |-> p ] : p \in { << << C1, "o\"k" >> >>, << << C1, C2 >> >>, << << C2, "A1" >>, << "zone", "x%y" >> >> } }
        \union { [ op |-> "add_pdef", def |-> d ] : d \in { << C1 >>, << C2 >>, << "zone" >>, << C1, C2 >>, << C1, "zone" >>, << >> } }
        \union { [ op |-> "drop_pdefs", defs |-> << d >> ] : d \in { << C1 >>, << C2 >>, << C1, C2 >>, << C1, C2, "zone" >>, << "zone" >> } }
        \union { [ op |-> "ord_lab", x |-> c, k |-> k ] : c \in { C1, "zone" }, k \in { -1, 2 } }
        \union { [ op |-> "ins_index_old", lab |-> "all",
                   rows |-> << << NOID, [ k \in DOMAIN x.cols |-> "A" ], << >> >>,
                               << NOID, [ k \in DOMAIN x.cols |-> IF k = 1 THEN "B" ELSE "A" ], << >> >> >> ] }
    [] PROFILE = "qty" ->
        { InsQ0(<< QR(l, "t", v) >>, ail, aip, oe) : l \in { << "A", "x" >>, << "A", "" >>, << "", "x" >>, << "B", "y" >> },
              v \in { 3 }, ail \in BOOLEAN, aip \in BOOLEAN, oe \in { "abort", "ignore", "replace", "sum" } }
        \union { InsQ0(<< QR(<< "A", "" >>, "t", 1), QR(<< "A", "" >>, "t", 2) >>, FALSE, FALSE, oe) : oe \in { "sum", "replace" } }
        \union { [ op |-> o ] : o \in { "del_qwi", "del_unm", "r_qwi", "r_unm", "r_q", "r_q2" } }
        \union { DelC(<< "A", "" >>), DelC(<< "B", "" >>), UpdI(<< << 3, << "C", "z" >> >> >>, FALSE),
                 [ op |-> "drop_pdefs", defs |-> << << C1 >> >> ] }
    [] PROFILE = "load" ->
        { InsI(<< << NOID, << "A", "x" >>, << v >> >>, << NOID, << b, "x" >>, << 2 >> >> >>, << "pop" >>, "abort", wc) :
              v \in { 1, BLANK, -1 }, b \in { "A", "B", "" }, wc \in { "abort", "ignore", "replace" } }
        \union { InsId(<< << i, l, << 5 >> >> >>, << "pop" >>, lc, wc) : i \in { 0, 1, 2, NOID }, l \in { << "A", "x" >>, << "B", "y" >> },
              lc \in { "abort", "ignore", "replace" }, wc \in { "abort", "replace" } }
        \union { [ InsId(<< << i, << "-", "-" >>, << 5 >> >> >>, << "pop" >>, "abort", "replace") EXCEPT !.lab = "none" ] : i \in { 1, 7, NOID } }
        \union { [ InsI(<< << NOID, << "B", "x" >>, << 5, 6 >> >> >>, << "pop", "nogroup" >>, "abort", "abort") EXCEPT !.wsel = "named", !.wnames = w ]
                 : w \in { << "pop" >>, << "nogroup" >> } }
    [] OTHER -> {}

RunSetup == FoldLeft(LAMBDA x, e : Apply(x, e).s, Empty, Setup)

Init == s = RunSetup /\ hist = << >> /\ n = 0

Bad(x, e, r) == IF r.ok THEN Steps(x, e, r.s) ELSE (IF r.s = x THEN {} ELSE { "step:C08" })
InvBad(x) ==
  (IF Inv_C04(x) THEN {} ELSE { "inv:C04" }) \union (IF Inv_C05(x) THEN {} ELSE { "inv:C05" }) \union
  (IF Inv_C05lc(x) THEN {} ELSE { "inv:C05lc" }) \union
  (IF Inv_C07(x) THEN {} ELSE { "inv:C07" }) \union (IF Inv_C09(x) THEN {} ELSE { "inv:C09" }) \union
  (IF Inv_C10(x) THEN {} ELSE { "inv:C10" }) \union (IF Inv_C12(x) THEN {} ELSE { "inv:C12" }) \union
  (IF Inv_C16(x) THEN {} ELSE { "inv:C16" }) \union (IF Inv_C23(x) THEN {} ELSE { "inv:C23" })

(* an update names no level: it needs a pair mapped at one level only       *)
Clear(x, e) == e.op # "upd_map" \/ \A k \in DOMAIN e.rows : \A a, b \in x.map :
  (a[3] = e.rows[k][1] /\ a[4] = e.rows[k][3] /\ b[3] = a[3] /\ b[4] = a[4] /\ a[1] = b[1] /\ a[2] = b[2]) => a = b
Next == /\ n < DEPTH
        /\ \E e \in { x \in Events(s) : Clear(s, x) } :
             LET r == Apply(s, e)
                 b == Bad(s, e, r) \union InvBad(r.s) IN
             /\ s' = r.s
             /\ hist' = Append(hist, e)
             /\ n' = n + 1
             /\ IF b = {} THEN TRUE ELSE PrintT("@@MFAIL " \o ToJson([ h |-> hist', bad |-> b ]))
             /\ IF EMIT THEN PrintT("@@H " \o ToJson([ h |-> hist', ok |-> r.ok ])) ELSE TRUE
Spec == Init /\ [][Next]_vars
View == << s, n >>
SetupJson == ToJson(Setup)
ASSUME PrintT("@@SETUP " \o SetupJson)
=============================================================================
