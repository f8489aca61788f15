----------------------------- MODULE Trace_Storage ----------------------------
(* Checks recorded histories of files and handles against Storage.tla.        *)
(* tr.paths, tr.handles; each event has after: f (path -> k, c, w, b), d,     *)
(* h (handle -> m, p, v, u as observed), stray (unexpected files).            *)
EXTENDS Storage, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s, stray
vars == << t, i, s, stray >>

Start(tr) ==
  [ f |-> [ p \in DOMAIN tr.evs[1].f |-> Nothing ], d |-> [ p \in DOMAIN tr.evs[1].f |-> TRUE ],
    h |-> [ x \in DOMAIN tr.evs[1].h |-> NoHandle ], sem |-> << >> ]

FileDiff(r, e) == { p \in DOMAIN r.f : r.f[p] # [ k |-> e.f[p].k, c |-> e.f[p].c, w |-> e.f[p].w ] }
ViewDiff(r, e) == { x \in DOMAIN r.h : r.h[x].m # "no" /\ e.h[x].v # View(r, x) }
IdDiff(r, e)   == { x \in DOMAIN r.h : Copy(r.h[x].m) /\ e.h[x].u # r.h[x].u }
ModeDiff(r, e) == { x \in DOMAIN r.h : (r.h[x].m = "no") # (e.h[x].m = "no") }

(* the clauses in which outcome o of event e is not what was seen *)
Clauses(x, e, o) ==
  (IF o.res = e.res THEN {} ELSE { "res" }) \union
  { IF "p" \in DOMAIN e /\ p = e.p THEN "file" ELSE "otherfile" : p \in FileDiff(o.s, e) } \union
  { IF "x" \in DOMAIN e /\ y = e.x THEN "view" ELSE "otherview" : y \in ViewDiff(o.s, e) } \union
  { "readback" : p \in { q \in DOMAIN o.s.f : o.s.f[q].k = "toron" /\ e.f[q].k = "toron" /\ e.f[q].c \in DOMAIN o.s.sem
                           /\ << e.f[q].v, e.f[q].u >> # << o.s.sem[e.f[q].c].v, o.s.sem[e.f[q].c].u >> } } \union
  \* the view a content was first met with is the view it keeps
  { "content" : c \in { k \in DOMAIN x.sem : o.s.sem[k] # x.sem[k] } } \union
  { "id" : y \in IdDiff(o.s, e) } \union { "mode" : y \in ModeDiff(o.s, e) }

\* a file nobody may have changed is the same byte for byte
Bytes(x, e) ==
  LET mayChange == IF e.op \in { "junk", "unlink", "mkdir", "copy" } THEN { e.p }
                   ELSE IF e.res = "ok" /\ e.op = "save" THEN { e.p }
                   ELSE IF e.op \in { "fsave", "ksave" } THEN { e.p }
                   ELSE IF e.op = "mod" /\ x.h[e.x].m = "rw" THEN { x.h[e.x].p }
                   ELSE IF e.op = "bind" /\ x.f[e.p].k = "none" THEN { e.p }
                   ELSE {}
  IN  IF \A p \in DOMAIN x.f \ mayChange : ~ e.f[p].touched THEN {} ELSE { "bytes" }

Judge(x, e) ==
  LET outs == Outcomes(x, e)
      best == CHOOSE o \in outs : \A q \in outs : Cardinality(Clauses(x, e, o)) <= Cardinality(Clauses(x, e, q))
      bad == Clauses(x, e, best) \union Bytes(x, e) \union
             (IF e.op # "ksave" /\ e.stray > stray THEN { "stray" } ELSE {}) \union
             (IF "mid" \in DOMAIN e /\ e.mid # View(x, e.y) THEN { "mid" } ELSE {}) \union
             (IF Laws(x, e, best.s) THEN {} ELSE { "law" })
  IN  [ s |-> best.s, bad |-> bad ]

Init == t \in DOMAIN Traces /\ i = 0 /\ s = Start(Traces[t]) /\ stray = 0
Next ==
  /\ i < Len(Traces[t].evs)
  /\ LET e0 == Traces[t].evs[i + 1]
         e == IF "ps" \in DOMAIN e0 THEN [ e0 EXCEPT !.ps = { @[k] : k \in DOMAIN @ } ] ELSE e0
         r == Judge(s, e)
     IN  /\ IF r.bad = {} THEN TRUE
            ELSE PrintT("@@FAIL " \o ToJson([ t |-> t, i |-> i + 1, op |-> e.op, bad |-> r.bad ]))
         /\ s' = r.s /\ stray' = e.stray
         \* a history is followed up to its first difference
         /\ i' = IF r.bad = {} THEN i + 1 ELSE Len(Traces[t].evs)
  /\ t' = t
  /\ IF i' < Len(Traces[t].evs) THEN TRUE ELSE PrintT("@@DONE " \o ToJson([ t |-> t ]))
Seen == << t, i >>
=============================================================================
