-------------------------------- MODULE MC_Cli --------------------------------
(* Histories of commands over two small files, explored exhaustively.        *)
(* IOEnv.PROFILE chooses the commands, IOEnv.DEPTH how many follow the       *)
(* set-up.  Every command is checked against what a user of the command line *)
(* relies on; the histories are printed and run for real.                    *)
EXTENDS Cli, Json, IOUtils

PROFILE == IOEnv.PROFILE
DEPTH   == atoi(IOEnv.DEPTH)
EMIT    == IOEnv.EMIT = "1"
VARIABLES F, h, n
vars == << F, h, n >>

FA == "a.toron"   FB == "b.toron"
UidOf(f) == IF f = FA THEN "ua" ELSE "ub"
Code(u, j) == u \o "#" \o ToString(j)
Codes == { << Code(u, j), u, j >> : u \in { "ua", "ub" }, j \in 0..7 }

---------------------------------------------------------------------------
(* commands *)
Base(cmd, files, backup) ==
  [ cmd |-> cmd, files |-> files, bk |-> [ k \in DOMAIN files |-> "backup-" \o files[k] ], hints |-> files,
    backup |-> backup, usage |-> FALSE ]
InitC(f, d)      == Base("init", << f >>, FALSE) @@ [ blocked |-> FALSE, dom |-> d, uid |-> UidOf(f), born |-> "now" ]
Items(cmd, f, q) == Base(cmd, << f >>, TRUE) @@ [ items |-> q ]
AddWt(f, nm, sels, dflt) == Base("add_weight", << f >>, TRUE) @@ [ nm |-> nm, desc |-> "", sels |-> sels, default |-> dflt ]
Upd(cmd, f, nm, k) == Base(cmd, << f >>, FALSE) @@ [ nm |-> nm, k |-> k ]
UpdWt(f, nm, old, add, rem, dflt) ==
  Base("upd_weight", << f >>, TRUE) @@ [ nm |-> nm, desc |-> "text", addsel |-> add, remsel |-> rem, default |-> dflt,
                                         sels |-> SetToSeq((SeqSet(old) \union SeqSet(add)) \ SeqSet(rem)) ]
RenL(f, o, w)    == Base("ren_label", << f >>, TRUE) @@ [ nm |-> o, new |-> w ]
RenD(f, w)       == Base("ren_domain", << f >>, TRUE) @@ [ new |-> w ]
Imp(f, coded, lab, dw, lc, wc, rows) ==
  Base("imp_index", << f >>, TRUE) @@ [ code |-> coded, head |-> "index_code", lab |-> lab, dw |-> dw, lc |-> lc, wc |-> wc,
                                         rows |-> rows, empty |-> FALSE ]
ImpQ(f, oe, ail, aip, rows) ==
  Base("imp_qty", << f >>, TRUE) @@ [ empty |-> FALSE, hasdom |-> FALSE, lab |-> "all", acols |-> << "year" >>, hasval |-> TRUE,
                                       ail |-> ail, aip |-> aip, oe |-> oe, rows |-> rows ]
Link(cmd, f, g, nm, dir, dflt) ==
  Base(cmd, << f, g >>, TRUE) @@ [ nm |-> nm, dir |-> dir, desc |-> "", default |-> dflt, sels |-> << >> ]
ImpM(f, g, nm, dir, lim, ov, part, coded, ca, cb, rows) ==
  Base("imp_map", << f, g >>, TRUE) @@
  [ nm |-> nm, beside |-> FALSE, dir |-> dir, lim |-> lim, ov |-> ov, incomplete |-> part, has |-> << coded, coded >>,
    heads |-> << "index_code", "z_index_code" >>, cols |-> << ca, cb >>, rows |-> rows ]
Read(cmd, f) == Base(cmd, << f >>, FALSE)
ExpM(f, g, nm) == Base("exp_map", << f, g >>, FALSE) @@ [ nm |-> nm ]

C1 == "state"  C2 == "county"
R(l, w) == << "", l, << w >> >>
RC(c, l, w) == << c, l, << w >> >>
Fill(f) == Imp(f, FALSE, "all", << "pop" >>, "abort", "abort",
               << R(<< "A", "x" >>, 1), R(<< "A", "y" >>, 3), R(<< "B", "x" >>, 0) >>)
Made(f) == << InitC(f, ""), Items("add_label", f, << C1, C2 >>), AddWt(f, "pop", << >>, TRUE), Fill(f) >>
Small(f) == << InitC(f, "d"), Items("add_label", f, << C1 >>), AddWt(f, "pop", << >>, TRUE),
               Imp(f, FALSE, "all", << "pop" >>, "abort", "abort", << R(<< "A" >>, 1), R(<< "B" >>, 2) >>) >>
Setup ==
  CASE PROFILE = "make"  -> << InitC(FA, "") >>
    [] PROFILE = "index" -> Made(FA) \o Small(FB)
    [] PROFILE = "qty"   -> Made(FA) \o << Items("add_part", FA, << C1 >>), Items("add_attr", FA, << "year" >>) >>
    [] PROFILE = "maps"  -> Made(FA) \o Small(FB) \o << Items("add_part", FA, << C1 >>), Link("add_link", FA, FB, "edge", "both", FALSE) >>

QR(l, y, v) == << "", l, << << "year", y >> >>, v >>
M(c1, l1, v, c2, l2) == << c1, l1, v, c2, l2 >>
Menu(G) ==
  CASE PROFILE = "make" ->
        { InitC(f, d) : f \in { FA, FB }, d \in { "", "d1" } }
        \union { Items("add_label", FA, q) : q \in { << C1 >>, << C2, C1 >>, << C1, C1 >>, << "zone" >>, << >> } }
        \union { AddWt(FA, nm, s, d) : nm \in { "pop", "wB" }, s \in { << >>, << "[sex=\"u\"]" >> }, d \in BOOLEAN }
        \union { UpdWt(FA, "pop", IF FA \in DOMAIN G /\ "pop" \in GroupNames(G[FA].s) THEN GroupOf(G[FA].s, "pop")[3] ELSE << >>, a, r, d)
                 : a \in { << >>, << "[year]" >> }, r \in { << >>, << "[sex=\"u\"]" >> }, d \in BOOLEAN }
        \union { Items("add_part", FA, q) : q \in { << C1 >>, << "zone" >> } }
        \union { Items("add_attr", FA, q) : q \in { << "sex", "year" >>, << "year" >>, << "value" >> } }
        \union { Upd("upd_label", FA, c, k) : c \in { C1, "zone" }, k \in { -1, 1, 5 } }
        \union { Upd("upd_attr", FA, "year", -1), RenL(FA, C1, "zone"), RenL(FA, "zone", C1), RenD(FA, "d2"),
                 Read("info", FA), Read("exp_index", FA), Read("exp_qty", FA),
                 Imp(FA, FALSE, "all", << >>, "abort", "abort",
                     << << "", [ k \in 1..(IF FA \in DOMAIN G THEN N(G[FA].s) ELSE 1) |-> "A" ], << >> >> >>) }
    [] PROFILE = "index" ->
        { Imp(FA, TRUE, "all", << "pop" >>, lc, wc, << RC(Code("ua", j), l, v) >>)
            : j \in { 0, 1, 2, 6 }, l \in { << "A", "x" >>, << "C", "x" >> }, v \in { 2, BLANK }, lc \in { "abort", "replace" }, wc \in { "abort", "ignore", "replace" } }
        \union { Imp(FA, TRUE, "all", << "pop" >>, "ignore", "ignore", << RC(Code("ub", 1), << "A", "x" >>, 2), RC("", << "D", "z" >>, 2) >>),
                 Imp(FA, TRUE, "all", << "pop" >>, "ignore", "ignore", << RC(Code("ua", 1), << "A", "x" >>, 2), RC("", << "D", "z" >>, 2) >>),
                 Imp(FA, TRUE, "all", << "pop" >>, "abort", "abort", << RC(Code("ua", 1), << "A", "x" >>, 2), RC(Code("ub", 1), << "D", "z" >>, 2) >>),
                 Imp(FA, TRUE, "all", << "pop" >>, "ignore", "ignore", << RC(Code("ua", 1), << "A", "x" >>, 2), RC(Code("ub", 1), << "D", "z" >>, 2) >>),
                 Imp(FB, TRUE, "all", << "pop" >>, "replace", "replace", << RC(Code("ub", 1), << "E" >>, 7), RC(Code("ub", 2), << "A" >>, 7) >>),
                 Imp(FB, TRUE, "all", << >>, "replace", "abort", << << Code("ub", 1), << "B" >>, << >> >>, << Code("ub", 2), << "A" >>, << >> >> >>),
                 Imp(FB, TRUE, "none", << "pop" >>, "abort", "replace", << RC(Code("ub", 1), << "-" >>, 4), RC(Code("ub", 0), << "-" >>, 0) >>),
                 Imp(FB, FALSE, "all", << "pop" >>, "abort", "abort", << R(<< "Q" >>, 4), R(<< "A" >>, 4) >>),
                 Imp(FB, FALSE, "all", << "pop" >>, "abort", "abort", << R(<< "Q" >>, 4), R(<< "" >>, 4) >>),
                 RenL(FA, C2, "zone"), Upd("upd_label", FA, C1, 1), Read("exp_index", FA), Read("exp_index", FB), Read("info", FB) }
    [] PROFILE = "qty" ->
        { ImpQ(FA, oe, ail, aip, << QR(l, "t", 3) >>) : oe \in { "abort", "ignore", "replace", "sum" }, ail \in BOOLEAN, aip \in BOOLEAN,
            l \in { << "A", "x" >>, << "A", "" >>, << "", "x" >>, << "C", "" >> } }
        \union { ImpQ(FA, oe, FALSE, FALSE, << QR(<< "A", "" >>, "t", 1), QR(<< "B", "" >>, "u", v), QR(<< "A", "" >>, "t", 2) >>)
                 : oe \in { "sum", "replace" }, v \in { 5, BAD } }
        \union { Items("add_attr", FA, << "sex" >>), Read("exp_qty", FA), Read("info", FA), RenL(FA, C2, "zone"), Upd("upd_label", FA, C1, 1) }
    [] PROFILE = "maps" ->
        { ImpM(FA, FB, "edge", dir, lim, FALSE, part, FALSE, << C1, C2 >>, << C1 >>, << M("", l, 8, "", << "B" >>) >>)
            : dir \in { "both", "left", "right" }, lim \in { 1, 4 }, part \in BOOLEAN, l \in { << "A", "x" >>, << "A", "" >> } }
        \union { ImpM(FA, FB, "edge", dir, 1, FALSE, TRUE, TRUE, << C1, C2 >>, << C1 >>,
                      << M(Code(u, 1), << "A", "x" >>, 8, Code("ub", j), << "B" >>) >>)
                 : u \in { "ua", "ub" }, j \in { 1, 2, 5 }, dir \in { "both", "right" } }
        \union { ImpM(FA, FB, "edge", dir, 1, FALSE, TRUE, TRUE, << C1, C2 >>, << C1 >>,
                      << M(Code("ua", 1), << "B", "x" >>, 8, Code("ub", 1), << b >>) >>) : dir \in { "both", "left" }, b \in { "B", "" } }
        \union { ImpM(FA, FB, "edge", "right", 4, ov, FALSE, FALSE, << C1, C2 >>, << C1 >>,
                      << M("", << "A", "x" >>, 6, "", << "A" >>), M("", << "A", "" >>, 4, "", << "B" >>), M("", << "B", "" >>, 2, "", << "B" >>) >>)
                 : ov \in BOOLEAN }
        \union { ImpM(FB, FA, "edge", "both", 4, FALSE, TRUE, TRUE, << C1 >>, << C1, C2 >>,
                      << M(Code("ub", 1), << "A" >>, 3, "", << "B", "" >>), M("", << "" >>, BLANK, Code("ua", 1), << "A", "x" >>) >>) }
        \union { Link(c, FA, FB, nm, dir, nm = "edge") : c \in { "add_link", "rem_link" }, nm \in { "edge", "pop" }, dir \in { "both", "left", "right" } }
        \union { ExpM(FA, FB, "edge"), ExpM(FB, FA, "edge"), Read("info", FB) }

---------------------------------------------------------------------------
(* loading mappings changes one or both files *)
StoreMap(a, f, uid, nm, new) ==
  LET q == SetToSeq(DOMAIN new)
  IN  On(a, f, [ op |-> "ins_map2", ref |-> uid, nm |-> nm,
                 rows |-> [ k \in DOMAIN q |-> << q[k][1], q[k][2], q[k][3], new[q[k]][1] \div VS >> ] ])
Run(G0, e) ==
  IF e.cmd # "imp_map" \/ ~ Usable(G0, e) THEN Command(G0, e, Codes)
  ELSE LET G == BackedUp(G0, e)
           r == CmdImpMap(G, e, Codes)
           a2 == IF r.put2 THEN StoreMap(Done(G), e.files[2], G[e.files[1]].uid, e.nm, r.new2) ELSE Done(G)
           a1 == IF r.put1 THEN StoreMap(a2, e.files[1], G[e.files[2]].uid, e.nm, r.new1) ELSE a2
       IN  [ ok |-> r.ok, F |-> a1.F ]

---------------------------------------------------------------------------
(* what a user relies on *)
Seq0(S) == SetToSeq(S)
Exported(x, uid) == LET gs == SetToSeq(GroupNames(x)) IN << gs, Seq0(IndexRows(x, uid, gs, LAMBDA u, j : Code(u, j))) >>
\* what was printed, loaded where it came from, changes nothing
Again(G, f) ==
  LET x == G[f].s
      t == Exported(x, G[f].uid)
      back(lc, wc) == Run(G, [ Imp(f, TRUE, "all", t[1], lc, wc, t[2]) EXCEPT !.backup = FALSE ])
  IN  N(x) = 0 \/ \A c \in { "ignore", "replace" } :
        LET b == back(c, c) IN (b.ok => b.F = G) /\ (x.wt # {} /\ Cardinality(x.idx) <= 9 => b.ok)
\* loaded into an empty space of the same columns and weights, it gives the same records and weights
Elsewhere(G, f) ==
  LET x == G[f].s
      t == Exported(x, G[f].uid)
      g0 == [ x EXCEPT !.idx = { r \in x.idx : r[1] = 0 }, !.wt = {}, !.map = {}, !.lnk = {}, !.used = 0, !.ih = << 0 >>,
                       !.grp = { [ z EXCEPT ![4] = FALSE ] : z \in x.grp } ]
      to == (f :> [ uid |-> "uc", born |-> "", s |-> g0 ])
      \* without the line of the undefined record, which needs no telling
      rows == SelectSeq(t[2], LAMBDA r : r[1] # Code(G[f].uid, 0))
      b == Run(to, [ Imp(f, FALSE, "all", t[1], "abort", "abort", rows) EXCEPT !.backup = FALSE ])
      y == b.F[f].s
      Wts(z) == { << w[1], LabOf(z, w[2]), w[3] >> : w \in z.wt }
  IN  N(x) = 0 \/ rows = << >> \/
      (b.ok /\ { r[2] : r \in y.idx } = { r[2] : r \in x.idx } /\ Wts(y) = Wts(x) /\ GFlag(y.grp) = GFlag(x.grp))
QtyAgain(G, f) ==
  LET x == G[f].s
      rows == [ k \in 1..Cardinality(x.qty) |-> LET q == SetToSeq(x.qty)[k] IN << "", q[1], SetToSeq(q[2]), q[3] >> ]
      load(y, oe) == Run((f :> [ uid |-> "uc", born |-> "", s |-> y ]), [ ImpQ(f, oe, TRUE, TRUE, rows) EXCEPT !.backup = FALSE, !.acols = x.attrs ]).F[f].s
      emptied == [ x EXCEPT !.qty = {}, !.loc = {}, !.ag = {} ]
  IN  x.attrs = << >> \/ (load(emptied, "abort").qty = x.qty /\ \A c \in { "ignore", "replace" } : load(x, c).qty = x.qty)
\* mappings of whole records, loaded into the emptied link, are the same again
MapAgain(G, f, g) ==
  LET a == G[f].s  b == G[g].s
      L == { l \in b.lnk : l[1] = G[f].uid }
      lab(z, j) == IF HasId(z, j) THEN LabOf(z, j) ELSE [ k \in 1..N(z) |-> "" ]
  IN  \A l \in L :
        LET ms == Maps(b, l)
            q == SetToSeq(ms)
            rows == [ k \in DOMAIN q |-> << Code(G[f].uid, q[k][3]), lab(a, q[k][3]), q[k][6], Code(G[g].uid, q[k][4]), lab(b, q[k][4]) >> ]
            b0 == [ b EXCEPT !.map = { m \in b.map : m \notin ms },
                             !.lnk = { IF x = l THEN [ x EXCEPT ![7] = FALSE, ![8] = << -2 >> ] ELSE x : x \in b.lnk } ]
            r == Run([ G EXCEPT ![g].s = b0 ],
                     [ ImpM(f, g, l[2], "right", 1, FALSE, TRUE, TRUE, a.cols, b.cols, rows) EXCEPT !.backup = FALSE ])
        IN  (ms = {} \/ \E m \in ms : m[5] # Ones(N(b)) \/ ~ HasId(a, m[3])) \/ a.dflt = "" \/ b.dflt = ""
            \/ (r.ok /\ r.F[g].s.map = b.map)
\* commands that change one file at one point
Single(e) == e.cmd \notin { "add_link", "rem_link", "upd_weight", "imp_map" }
Held(G) == { f \in DOMAIN G : f \in { FA, FB } }
Check(G, e, r) ==
  Part(Reading(e) => r.F = G, "reads") \union
  Part(~ r.ok /\ Single(e) => \A f \in Held(G) : r.F[f] = G[f], "failed") \union
  Part(\A f \in Held(G) \ SeqSet(e.files) : r.F[f] = G[f], "other") \union
  Part(Held(r.F) # Held(G) => e.cmd = "init" /\ r.ok, "created") \union
  Part(\A f \in Held(G) : r.F[f].uid = G[f].uid, "identity") \union
  Part((e.backup /\ ~ Reading(e) /\ Usable(G, e)) => \A k \in DOMAIN e.files : r.F[e.bk[k]] = G[e.files[k]], "backup") \union
  Part((e.cmd = "imp_index" /\ e.code /\ r.ok /\ Usable(G, e)) =>
         \A k \in DOMAIN e.rows : e.rows[k][1] = "" \/ CodeOf(Codes, G[e.files[1]].uid, e.rows[k][1]) # {}
                                  \/ ~ \E j \in DOMAIN e.rows : CodeOf(Codes, G[e.files[1]].uid, e.rows[j][1]) # {}, "codes") \union
  Part((e.cmd = "imp_map" /\ r.ok /\ e.has[1] /\ Len(e.rows) = 1 /\ e.files[2] \in DOMAIN G) =>
         LET b == G[e.files[2]].s  c == r.F[e.files[2]].s
         IN  \A m \in c.map \ b.map : (\E x \in b.map : SubSeq(x, 1, 5) = SubSeq(m, 1, 5)) \/
               /\ CodeOf(Codes, G[e.files[1]].uid, e.rows[1][1]) \subseteq { m[3] }
               /\ CodeOf(Codes, G[e.files[2]].uid, e.rows[1][4]) \subseteq { m[4] }, "codes") \union
  Part(\A f \in Held(r.F) : Again(r.F, f) /\ Elsewhere(r.F, f), "again:index") \union
  Part(\A f \in Held(r.F) : QtyAgain(r.F, f), "again:quantities") \union
  Part(PROFILE # "maps" \/ (MapAgain(r.F, FA, FB) /\ MapAgain(r.F, FB, FA)), "again:mappings")

Init == /\ h = << >> /\ n = 0
        /\ F = FoldLeft(LAMBDA G, e : Run(G, e).F, << >>, Setup)
Next == /\ n < DEPTH
        /\ \E e \in Menu(F) :
             LET r == Run(F, e)
                 b == Check(F, e, r)
             IN  /\ F' = r.F /\ h' = Append(h, e) /\ n' = n + 1
                 /\ IF b = {} THEN TRUE ELSE PrintT("@@MFAIL " \o ToJson([ h |-> h', bad |-> b ]))
                 /\ IF EMIT THEN PrintT("@@H " \o ToJson([ h |-> h', ok |-> r.ok ])) ELSE TRUE
View == << F, n >>
ASSUME PrintT("@@SETUP " \o ToJson(Setup))
=============================================================================
