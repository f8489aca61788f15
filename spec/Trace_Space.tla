----------------------------- MODULE Trace_Space -----------------------------
(* Checks recorded executions of real data spaces against DataSpace.tla.    *)
(* Every trace is one initial state; each step takes the next recorded      *)
(* event, computes the outcome the specification promises from the state    *)
(* observed before it, compares it with the outcome and state observed      *)
(* after it, checks the invariants on the observed state, and goes on from  *)
(* the observed state.  Every difference is printed.                        *)
EXTENDS Props, Migrate, Compare, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES t, i, s, bad
vars == << t, i, s, bad >>

Invs(x) ==
  (IF Inv_C04(x) THEN {} ELSE { "inv:C04" }) \union
  (IF Inv_C05(x) THEN {} ELSE { "inv:C05" }) \union
  (IF Inv_C07(x) THEN {} ELSE { "inv:C07" }) \union
  (IF Inv_C09(x) THEN {} ELSE { "inv:C09" }) \union
  (IF Inv_C10(x) THEN {} ELSE { "inv:C10" }) \union
  (IF Inv_C12(x) THEN {} ELSE { "inv:C12" }) \union
  (IF Inv_C16(x) THEN {} ELSE { "inv:C16" }) \union
  (IF Inv_C23(x) THEN {} ELSE { "inv:C23" })

---------------------------------------------------------------------------
(* what reading operations return *)
Sub(a, name, ok) == IF ok THEN a ELSE a \union { "read:" \o name }
ReadProps(x, r) ==
  Sub(Sub(Sub(Sub(Sub(Sub(Sub(Sub(Sub({}, "dom", r.dom = x.dom), "cols", r.cols = x.cols),
      "disp", r.disp = x.disp), "attrs", r.attrs = x.attrs),
      "pd", SeqSet(r.pd) = x.pd /\ Len(r.pd) = Cardinality(x.pd)),
      "maxid", r.maxid = Max(Ids(x))),
      "grp", SeqSet(r.grp) = x.grp /\ Len(r.grp) = Cardinality(x.grp)),
      "dflt", r.dflt = x.dflt),
      "lnk", SeqSet(r.lnk) = x.lnk /\ Len(r.lnk) = Cardinality(x.lnk))
Is(name, rows, want) == IF SeqSet(rows) = want /\ Len(rows) = Cardinality(want) THEN {} ELSE { "read:" \o name }
ReadIndex(x, e) ==
  Sub(Is("index", e.rd.rows, { r \in x.idx : r[1] \in MatchIds(x, e.crit) }),
      "indexhdr", e.rd.hdr = << "index_id" >> \o x.cols)
ReadWt(x, e) ==
  IF e.g \notin GroupNames(x) THEN (IF e.rd.rows = << >> THEN {} ELSE { "read:wt" })
  ELSE Sub(Is("wt", e.rd.rows, { << LabOf(x, j), Dom1(x) \o << e.g >>, IF j \in Weighted(x, e.g) THEN WeightOf(x, e.g, j) ELSE BLANK >>
                                  : j \in MatchIds(x, e.crit) \ { 0 } }),
           "wthdr", e.rd.hdr = x.cols \o DomH(x) \o << "weight", "value" >>)
ReadMap(x, e) ==
  LET R == Resolve(x, e.ref, e.nm)
      l == Only(R)
      ids == MatchIds(x, e.crit) \ { 0 }
      M == { m \in Maps(x, l) : m[4] \in ids }
      mapped == { << m[3], m[6], m[4], LabOf(x, m[4]), Ambig(x, m[5]) >> : m \in M }
      rest == { << NOID, BLANK, j, LabOf(x, j), << >> >> : j \in ids \ { m[4] : m \in M } }
  IN  IF R = {} THEN (IF e.res = "err" THEN {} ELSE { "read:map" })
      ELSE IF e.res = "err" THEN { "read:map" }
      ELSE Sub((IF SeqSet(e.rd.rows) = mapped \union rest /\ Len(e.rd.rows) = Cardinality(M) + Cardinality(rest)
                THEN {} ELSE { "read:map" }),
               "maphdr", e.rd.hdr = << "other_index_id", l[2], "index_id" >> \o x.cols \o << "ambiguous_fields" >>)
ReadLink(x, e) ==
  LET R == Resolve(x, e.ref, e.nm) IN
  IF R = {} THEN (IF e.res = "err" THEN {} ELSE { "read:link" })
  ELSE IF e.res = "ok" /\ e.rd = << Only(R)[1], Only(R)[2] >> THEN {} ELSE { "read:link" }
Rd(x, e, name, ok) == IF e.res = "ok" /\ ok THEN {} ELSE { "read:" \o name }
Reads(x, e) ==
  CASE e.op = "r_props" -> IF e.res = "err" THEN { "read:props" } ELSE ReadProps(x, e.rd)
    [] e.op = "r_index" -> IF e.res = "err" THEN { "read:index" } ELSE ReadIndex(x, e)
    [] e.op = "r_wt"    -> IF e.res = "err" THEN { "read:wt" } ELSE ReadWt(x, e)
    [] e.op = "r_map"   -> ReadMap(x, e)
    [] e.op = "r_link"  -> ReadLink(x, e)
    [] e.op = "r_q"     -> Rd(x, e, "q", Listing(x, e.rd, x.qty, AllAt(x)))
    [] e.op = "r_q2"    -> IF x.attrs = << >> THEN (IF e.res = "err" THEN {} ELSE { "read:q2" })
                           ELSE Rd(x, e, "q2", Listing(x, e.rd, x.qty, SeqSet(x.attrs)))
    [] e.op = "r_qwi"   -> Rd(x, e, "qwi", Listing(x, e.rd, { q \in x.qty : NoRecord(x, q[1]) }, AllAt(x)))
    [] e.op = "r_unm"   -> Rd(x, e, "unm", Listing(x, e.rd, { q \in x.qty : Unmatched(x, q[1]) }, AllAt(x)))
    [] e.op = "r_info"  -> IF e.res = "err" THEN { "info:fails" }
                           ELSE InfoText(x, e.rd) \union
                                (IF e.rd.stored = << e.rd.born, e.rd.born >> THEN {} ELSE { "info:created" })
    [] OTHER            -> {}
IsRead(e) == e.op \in { "r_props", "r_index", "r_wt", "r_map", "r_link", "r_q", "r_q2", "r_qwi", "r_unm", "r_info" }

---------------------------------------------------------------------------
(* An operation that something disturbed: a failing statement, a full disk,   *)
(* an interruption, or the death of the process.  The space holds either what *)
(* it held or the complete result, and never the result of a failure.         *)
FaultJudge(x, e, tr) ==
  LET pred == Apply(x, e)
      y    == Observed(x, e.d, IF pred.ok THEN pred.s.used ELSE x.used)
      same == Diff(x, y) = {}
      \* complete: as specified, or as when nothing disturbed it
      whole == \/ pred.ok /\ Diff(pred.s, y) = {}
               \/ tr.evs[1].res = "ok" /\ Diff(Observed(x, tr.evs[1].d, y.used), y) = {}
      cmp  == IF e.res = "err" THEN { "fault:" \o c : c \in Diff(x, y) }
              ELSE IF e.res = "ok"
                   THEN IF e.fault = "count" \/ whole THEN {} ELSE IF same THEN { "fault:lost" } ELSE { "fault:part" }
              ELSE IF same \/ whole THEN {}
              ELSE { "fault:part" } \union { "fault:" \o c : c \in Diff(x, y) }
  IN  [ y |-> y, bad |-> cmp, pok |-> pred.ok ]
---------------------------------------------------------------------------
(* opening a file of an earlier format *)
ToOld(j) == [ j EXCEPT !.idx = SeqSet(@), !.grp = SeqSet(@), !.wt = SeqSet(@), !.lnk = SeqSet(@), !.pd = SeqSet(@),
                       !.st = SeqSet(@), !.loc = SeqSet(@), !.ag = { PairSet(@[k]) : k \in DOMAIN @ },
                       !.q = [ k \in DOMAIN @ |-> << @[k][1], PairSet(@[k][2]), @[k][3] >> ] ]
SameOld(a, b) == [ a EXCEPT !.rel = SeqSet(@), !.q = {} ] = [ b EXCEPT !.rel = SeqSet(@), !.q = {} ]
                 /\ Len(a.rel) = Len(b.rel) /\ Len(a.q) = Len(b.q)
                 /\ \A z \in SeqSet(a.q) \union SeqSet(b.q) :
                       Cardinality({ k \in DOMAIN a.q : a.q[k] = z }) = Cardinality({ k \in DOMAIN b.q : b.q[k] = z })
\* e.disk: what the file holds afterwards ("old", "new" or "bad"); e.d: the content of the space, or of the
\* file when the space was not opened and the file is new
MigrateJudge(x, e) ==
  LET o    == ToOld(e.old)
      want == OpensTo(o, e.m)
      has  == DOMAIN e.d # {}
      may  == Migratable(o)
      y    == IF has THEN Observed(x, e.d, IF may THEN Means(o).used ELSE 0) ELSE x
      held == IF has /\ may THEN { "migr:" \o c : c \in Diff(Means(o), y) } \union Invs(y)
                               \union (IF e.x = e.old.x THEN {} ELSE { "migr:identity" })
                               \union (IF e.fmt = e.wfmt THEN {} ELSE { "migr:format" })
              ELSE {}
      \* unharmed: an old file is as it was; its very bytes unless something was disturbed
      safe == IF e.disk # "old" \/ (e.same \/ (e.op = "migfault" /\ "left" \in DOMAIN e /\ SameOld(ToOld(e.left), o)))
              THEN {} ELSE { "migr:changed" }
      out  == IF e.op = "migrate"
              THEN (IF (e.res = "ok") = want.ok THEN {} ELSE IF e.res = "ok" THEN { "accepted" } ELSE { "refused" })
                   \union (IF e.disk = want.disk THEN {} ELSE { "migr:disk" })
              ELSE (IF e.res = "ok" /\ ~ want.ok THEN { "accepted" } ELSE {})
                   \union (IF e.disk \in (IF e.res = "ok" THEN { want.disk } ELSE Disturbed(o, e.m)) THEN {} ELSE { "migr:disk" })
  IN  [ y |-> y, bad |-> held \union safe \union out, pok |-> want.ok ]
Judge(x, e, tr) ==
  IF e.op \in { "migrate", "migfault" } THEN MigrateJudge(x, e) ELSE
  IF "fault" \in DOMAIN e THEN FaultJudge(x, e, tr) ELSE
  IF e.op = "reset" THEN [ y |-> ToState(tr.init, tr.used), bad |-> {}, pok |-> TRUE ] ELSE
  LET crash == "boom" \in DOMAIN e \* the data source raised
      p0   == IF IsRead(e) THEN OK(x) ELSE Apply(x, e)
      pred == IF crash THEN ERR(x) ELSE p0
      ok   == e.res = "ok"
      used == IF ok /\ pred.ok THEN pred.s.used ELSE x.used
      y    == Observed(x, e.d, used)
      cmp  == IF IsRead(e) THEN Reads(x, e) \union { "readonly:" \o c : c \in Diff(x, y) }
              ELSE IF pred.ok /\ ok THEN { "cmp:" \o c : c \in Diff(pred.s, y) }
              ELSE IF pred.ok THEN { "refused" } \union { "atomic:" \o c : c \in Diff(x, y) }
              ELSE IF ok THEN { "accepted" }
              ELSE { "atomic:" \o c : c \in Diff(x, y) }
  IN  [ y |-> y, bad |-> cmp \union (IF DOMAIN e.d = {} THEN {} ELSE Invs(y))
                                \union (IF ok /\ ~ IsRead(e) /\ pred.ok THEN Steps(x, e, y) ELSE {}), pok |-> pred.ok ]

Init == /\ t \in DOMAIN Traces
        /\ i = 0
        /\ s = ToState(Traces[t].init, Traces[t].used)
        /\ bad = 0
Step ==
  /\ i < Len(Traces[t].evs)
  /\ LET e == Traces[t].evs[i + 1]
         j == Judge(s, e, Traces[t])
     IN  /\ s' = j.y
         /\ IF j.bad = {} THEN TRUE
            ELSE PrintT("@@FAIL " \o ToJson([ t |-> t, i |-> i + 1, op |-> e.op, bad |-> j.bad ]))
         /\ bad' = IF j.bad = {} THEN bad ELSE bad + 1
  /\ i' = i + 1
  /\ t' = t
  /\ IF i' < Len(Traces[t].evs) THEN TRUE
     ELSE PrintT("@@DONE " \o ToJson([ t |-> t, n |-> i', bad |-> bad' ]))
Next == Step
Spec == Init /\ [][Next]_vars
View == << t, i >>
=============================================================================
