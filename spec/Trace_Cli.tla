------------------------------ MODULE Trace_Cli ------------------------------
(* Checks recorded runs of the command line against Cli.tla: the files of    *)
(* the directory before and after each command, its exit code and the table  *)
(* or summary it printed.                                                    *)
EXTENDS Cli, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, bad
vars == << t, i, bad >>

Codes(tr) == SeqSet(tr.world.codes)
Snap(tr, k) == tr.world.snaps[k]
Names(q) == { q[k][1] : k \in DOMAIN q }
Where(q, f) == (CHOOSE x \in SeqSet(q) : x[1] = f)[2]
FilesOf(tr, q) == [ f \in Names(q) |-> [ uid |-> Snap(tr, Where(q, f)).uid, born |-> Snap(tr, Where(q, f)).born,
                                         s |-> ToState(Snap(tr, Where(q, f)).s, Snap(tr, Where(q, f)).used) ] ]
Fm(tr, q, f) == SeqSet(Snap(tr, Where(q, f)).fm)
Tag(p, S) == { p \o x : x \in S }

---------------------------------------------------------------------------
(* mappings that were added to a link *)
Tol(f, k) == 4 + 4 * f[k][2] + f[k][1] \div 500000
Plain(M) == { SubSeq(m, 1, 6) : m \in M }
Joined(x, y, fx, fy, uid, nm, f) ==
  LET keep == Plain(fx)
      new == { m \in fy : SubSeq(m, 1, 6) \notin keep }
      rows == { << m[3], m[4], m[5], m[6] >> : m \in new }
      keys == { << r[1], r[2], r[3] >> : r \in rows }
      mine == { m \in fy : m[1] = uid /\ m[2] = nm }
      total(o) == SumBy({ m \in mine : m[3] = o }, LAMBDA m : m[6])
      same(o) == Cardinality({ m \in mine : m[3] = o })
      l0 == CHOOSE l \in x.lnk : l[1] = uid /\ l[2] = nm
      l1 == [l0 EXCEPT ![7] = Defined(x) \subseteq { m[4] : m \in mine },
                       ![8] = SortedSeq({ 0 } \union { m[3] : m \in mine })]
  IN  IF f = << >> \/ DOMAIN f = {} THEN Tag("map:", Diff(x, y)) \union Part(fx = fy, "map:changed")
      ELSE Part(keep \subseteq Plain(fy), "map:lost") \union
           Part(\A m \in new : m[1] = uid /\ m[2] = nm, "map:where") \union
           Part(keys = DOMAIN f /\ Cardinality(rows) = Cardinality(keys), "map:mappings") \union
           Part(\A r \in rows : LET k == << r[1], r[2], r[3] >> IN k \in DOMAIN f => Near(r[4], f[k][1], Tol(f, k)), "map:values") \union
           Part(\A m \in mine :
                  LET tot == total(m[3])
                      u == tot \div 4000000 + 1
                      w == tot \div u
                  IN  IF m[3] = 0 THEN m[7] = 0
                      ELSE IF tot = 0 THEN Near(m[7], SCALE \div same(m[3]), 4)
                      ELSE IF tot < 3000 THEN TRUE
                      ELSE Near(m[7], MulDiv(SCALE, Min({ m[6] \div u, w }), w), 4 + (8 * SCALE) \div w), "map:shares") \union
           Part({ m \in fx : ~ (m[1] = uid /\ m[2] = nm) } = { m \in fy : ~ (m[1] = uid /\ m[2] = nm) }, "map:others") \union
           Part(y.lnk = (x.lnk \ { l0 }) \union { l1 }, "map:link") \union
           Tag("map:", Diff([ x EXCEPT !.lnk = {}, !.map = {} ], [ y EXCEPT !.lnk = {}, !.map = {} ]))

---------------------------------------------------------------------------
(* the files afterwards *)
SameSpace(tr, e, f, want, got) ==
  Part(want.uid = got.uid /\ want.born = got.born, "file:identity") \union Tag("file:", Diff(want.s, got.s))
FilesAs(tr, e, F, G, but) ==
  Part(DOMAIN F \subseteq DOMAIN G, "file:missing") \union
  Part(DOMAIN G \subseteq DOMAIN F, "file:created") \union
  UNION { SameSpace(tr, e, f, F[f], G[f]) : f \in (DOMAIN F \intersect DOMAIN G) \ but } \union
  \* a backup is complete down to its mappings' values
  (IF e.usage \/ e.cmd = "init" \/ Reading(e) \/ ~ e.backup \/ ~ Usable(F, e) THEN {}
   ELSE UNION { Part(~ (e.bk[k] \in DOMAIN G /\ e.files[k] \in Names(e.pre)) \/ e.bk[k] \in but
                     \/ Fm(tr, e.post, e.bk[k]) = Fm(tr, e.pre, e.files[k]), "file:backup") : k \in DOMAIN e.files })
\* whatever else is in the directory
Others(e, F) == Part({ x \in SeqSet(e.junk0) : x[1] \notin DOMAIN F } = SeqSet(e.junk1), "stray")
Untouched(e) == Part(~ (Reading(e) \/ e.usage \/ (e.cmd = "init" /\ e.res = "err")) \/ e.touched = << >>, "touched")

MapJudge(tr, e, F0, G, codes) ==
  LET F == BackedUp(F0, e)
      f1 == e.files[1]  f2 == e.files[2]
      r == CmdImpMap(F, e, codes)
      side(f, put, other, new) ==
        IF put THEN Joined(F[f].s, G[f].s, Fm(tr, e.pre, f), Fm(tr, e.post, f), F[other].uid, e.nm, new)
        ELSE SameSpace(tr, e, f, F[f], G[f]) \union Part(Fm(tr, e.pre, f) = Fm(tr, e.post, f), "map:changed")
      got == e.res = "ok"
  IN  FilesAs(tr, e, F, G, { f1, f2 }) \union Others(e, F) \union
      (IF { f1, f2 } \subseteq DOMAIN G
       THEN IF r.any THEN {}
            ELSE IF r.ok # got THEN { IF got THEN "accepted" ELSE "refused" }
            ELSE side(f2, r.put2, f1, r.new2) \union side(f1, r.put1, f2, r.new1)
       ELSE {})

Judge(tr, e) ==
  LET codes == Codes(tr)
      F0 == FilesOf(tr, e.pre)
      G  == FilesOf(tr, e.post)
      r  == Command(F0, e, codes)
      got == e.res = "ok"
      x  == F0[e.files[1]]
      y  == F0[e.files[2]]
      out == IF ~ got \/ ~ r.ok THEN {}
             ELSE CASE e.cmd = "exp_index" -> OutIndex(x.s, x.uid, e.rd, codes)
                    [] e.cmd = "exp_qty"   -> Part(Listing(x.s, e.rd, x.s.qty, SeqSet(x.s.attrs)), "out:rows")
                    [] e.cmd = "exp_map"   -> OutMap(x.s, y.s, x.uid, y.uid, e.nm, Fm(tr, e.pre, e.files[2]), e.rd, codes)
                    [] e.cmd = "info"      -> InfoText(x.s, e.rd) \union Part(e.rd.head = e.base, "info:head")
                                              \union Part(e.rd.born = x.born, "info:created")
                    [] OTHER -> {}
  IN  IF e.cmd = "imp_map" /\ ~ e.usage /\ Usable(F0, e) THEN MapJudge(tr, e, F0, G, codes)
      ELSE (IF r.ok = got THEN FilesAs(tr, e, r.F, G, {})
            ELSE { IF got THEN "accepted" ELSE "refused" }
                 \union (IF got THEN {} ELSE FilesAs(tr, e, F0, [ f \in DOMAIN G \intersect DOMAIN F0 |-> G[f] ], SeqSet(e.bk))))
           \union Others(e, r.F) \union Untouched(e) \union out
           \union (IF e.cmd = "init" /\ got
                   THEN Part(e.uid \notin { F0[f].uid : f \in DOMAIN F0 }, "file:identity") ELSE {})

Init == t \in DOMAIN Traces /\ i = 0 /\ bad = 0
Next ==
  /\ i < Len(Traces[t].evs)
  /\ LET e == Traces[t].evs[i + 1]
         b == Judge(Traces[t], e) \union (IF i = 0 /\ ~ CodesSound(Codes(Traces[t])) THEN { "out:codes" } ELSE {})
     IN  /\ IF b = {} THEN TRUE
            ELSE PrintT("@@FAIL " \o ToJson([ t |-> t, i |-> i + 1, op |-> e.cmd, bad |-> b ]))
         /\ bad' = IF b = {} THEN bad ELSE bad + 1
  /\ i' = i + 1
  /\ t' = t
  /\ IF i' < Len(Traces[t].evs) THEN TRUE
     ELSE PrintT("@@DONE " \o ToJson([ t |-> t, n |-> i', bad |-> bad' ]))
View == << t, i >>
=============================================================================
