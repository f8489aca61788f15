------------------------------- MODULE Migrate -------------------------------
(* What a file of an earlier format means, and what opening it does.          *)
(* An old content o is a record of what its tables hold:                      *)
(*   ver    the version it names ("" for none)                                *)
(*   domk   "none" | "map" | "other": what the domain property holds          *)
(*   domd   0.2.0: the pairs of the domain map, in the order of their keys    *)
(*   dom, disp, attrs    0.3.0: as in DataSpace                               *)
(*   cols idx ih grp dflt wt lnk pd st loc ag    as in DataSpace              *)
(*   seq    greatest id ever given out                                        *)
(*   rel    sequence of mappings << space, name, other id, id, level, value,  *)
(*          share >>, the level << -1 >> when none is stored                  *)
(*   q      sequence of quantities << labels, attributes, value >>            *)
(*   alpha  all names in the order of their characters                        *)
(* A reference to a row that does not exist reads "#orphan" (a missing one    *)
(* "#null").                                                                  *)
EXTENDS DataSpace

Versions == { "0.2.0", "0.3.0" }
Kept(o)  == { k \in DOMAIN o.rel : o.ver # "0.2.0" \/ ~ (o.rel[k][3] = 0 /\ o.rel[k][4] = 0) }
OldIds(o) == { r[1] : r \in o.idx }
Whole(o) ==     \* every reference leads somewhere
  /\ \A k \in Kept(o) : o.rel[k][1] \notin { "#orphan", "#null" } /\ o.rel[k][4] \in OldIds(o)
  /\ \A k \in DOMAIN o.q : o.q[k][1] \notin { << "#orphan" >>, << "#null" >> } /\ o.q[k][2] # { << "#orphan", "" >> }
  /\ \A w \in o.wt : w[1] # "#orphan" /\ w[2] \in OldIds(o)
OneEach(o) ==   \* nothing would have to be kept twice
  \A j, k \in Kept(o) : j # k => SubSeq(o.rel[j], 1, 5) # SubSeq(o.rel[k], 1, 5)
Migratable(o) == o.ver \in Versions /\ (o.ver = "0.2.0" => o.domk # "other") /\ Whole(o) /\ OneEach(o)

FullLevel(o, lv) == IF lv = << -1 >> THEN Ones(Len(o.cols)) ELSE lv
OldDomain(o) ==
  IF o.ver = "0.3.0" THEN o.dom
  ELSE IF o.domk = "none" THEN ""
  ELSE IF Len(o.domd) = 1 /\ o.domd[1][1] = "domain" THEN o.domd[1][2]
  ELSE FoldLeft(LAMBDA a, k : a \o (IF k = 1 THEN "" ELSE "_") \o o.domd[k][1] \o "_" \o o.domd[k][2], "",
                [ k \in DOMAIN o.domd |-> k ])
OldAttrs(o) ==
  IF o.ver = "0.3.0" THEN o.attrs
  ELSE LET keys == UNION { { p[1] : p \in a } : a \in o.ag } IN SelectSeq(o.alpha, LAMBDA a : a \in keys)
Means(o) ==
  [ dom |-> OldDomain(o), cols |-> o.cols, disp |-> IF o.ver = "0.3.0" THEN o.disp ELSE o.cols,
    attrs |-> OldAttrs(o), idx |-> o.idx, used |-> MaxOf({ o.seq } \union OldIds(o), 0), ih |-> o.ih,
    grp |-> o.grp, dflt |-> o.dflt, wt |-> o.wt, lnk |-> o.lnk,
    map |-> { << r[1], r[2], r[3], r[4], FullLevel(o, r[5]), r[6], r[7] >> : r \in { o.rel[k] : k \in Kept(o) } },
    pd |-> o.pd, st |-> o.st, loc |-> o.loc, ag |-> o.ag,
    qty |-> LET keys == { << o.q[k][1], o.q[k][2] >> : k \in DOMAIN o.q }
            IN  { << z[1], z[2], SumSeq([ k \in DOMAIN o.q |-> IF o.q[k][1] = z[1] /\ o.q[k][2] = z[2] THEN o.q[k][3] ELSE 0 ]) >>
                  : z \in keys },
    dup |-> {} ]

(* the steps of a migration, as a file sees them: nothing is there until the  *)
(* last one; disk \in { "old", "new" }                                        *)
MayOpen(o, m) == Migratable(o) /\ m # "ro"
OpensTo(o, m) == [ ok |-> MayOpen(o, m), disk |-> IF MayOpen(o, m) /\ m \in { "rw", "rwc" } THEN "new" ELSE "old" ]
Disturbed(o, m) == { "old" } \union (IF MayOpen(o, m) /\ m \in { "rw", "rwc" } THEN { "new" } ELSE {})
=============================================================================
