------------------------------- MODULE Storage -------------------------------
(* Files and the spaces opened on them: which file holds which content, and   *)
(* what every handle shows.  Contents, views and unique ids are numbers (the  *)
(* digest of a whole file, of everything a space reports, of its id).         *)
(*   s.f[p] : [k: none | toron | junk | dir, c: content, w: writable]         *)
(*   s.d[p] : is the directory of p writable                                  *)
(*   s.h[x] : [m: no | mem | drive | ro | rw, p: bound file, v: own view, u]  *)
(*   s.sem[c] : the view and id that content c gives when it is opened        *)
(* An event e carries the numbers of what it creates: e.c, e.v, e.u.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gone == -1
NoHandle == [ m |-> "no", p |-> "", v |-> 0, u |-> 0 ]
Nothing  == [ k |-> "none", c |-> 0, w |-> TRUE ]
Copy(m)  == m \in { "mem", "drive" }
Bound(m) == m \in { "ro", "rw" }

View(s, x) ==
  LET q == s.h[x] IN
  IF Copy(q.m) THEN q.v
  ELSE IF Bound(q.m) /\ s.f[q.p].k = "toron" THEN s.sem[s.f[q.p].c].v
  ELSE Gone
Id(s, x) == LET q == s.h[x] IN IF Copy(q.m) \/ s.f[q.p].k # "toron" THEN q.u ELSE s.sem[s.f[q.p].c].u

Out(res, s) == [ res |-> res, s |-> s ]
Refuse(s)   == { Out("err", s) }
\* content c is known to show view v; a content never shows two views
Learn(s, c, v, u) == [ s EXCEPT !.sem = (c :> [ v |-> v, u |-> u ]) @@ @ ]
Agrees(s, c, v, u) == c \in DOMAIN s.sem => s.sem[c] = [ v |-> v, u |-> u ]

Writable(s, p) ==  \* may a file be put at p
  s.d[p] /\ (s.f[p].k = "none" \/ (s.f[p].k \in { "toron", "junk" } /\ s.f[p].w))

Saved(s, x, p, c) == [ Learn(s, c, View(s, x), Id(s, x)) EXCEPT !.f[p] = [ k |-> "toron", c |-> c, w |-> TRUE ] ]

Outcomes(s, e) ==
  CASE e.op = "new" ->
         { Out("ok", [ s EXCEPT !.h[e.x] = [ m |-> e.m, p |-> "", v |-> e.v, u |-> e.u ] ]) }
    [] e.op = "read" ->
         IF s.f[e.p].k = "toron"
         THEN LET y == s.sem[s.f[e.p].c]
              IN  { Out("ok", [ s EXCEPT !.h[e.x] = [ m |-> e.m, p |-> "", v |-> y.v, u |-> y.u ] ]) }
         ELSE Refuse(s)
    [] e.op = "bind" ->
         LET F == s.f[e.p]
             m == IF e.m = "ro" THEN "ro" ELSE "rw"
             at(t, c) == [ t EXCEPT !.h[e.x] = [ m |-> m, p |-> e.p, v |-> 0, u |-> t.sem[c].u ] ]
         IN  IF F.k = "toron" THEN IF m = "ro" \/ F.w THEN { Out("ok", at(s, F.c)) } ELSE Refuse(s)
             ELSE IF F.k = "none" /\ e.m = "rwc" /\ s.d[e.p]
             THEN { Out("ok", at([ Learn(s, e.c, e.v, e.u) EXCEPT !.f[e.p] = [ k |-> "toron", c |-> e.c, w |-> TRUE ] ], e.c)) }
             ELSE Refuse(s)
    [] e.op = "close" -> { Out("ok", [ s EXCEPT !.h[e.x] = NoHandle ]) }
    \* a modification; e.want says whether it is one the content allows
    [] e.op = "mod" ->
         LET q == s.h[e.x]
             done == IF Copy(q.m) THEN [ s EXCEPT !.h[e.x].v = e.v ]
                     ELSE [ Learn(s, e.c, e.v, Id(s, e.x)) EXCEPT !.f[q.p].c = e.c ]
             can == Copy(q.m) \/ (q.m = "rw" /\ s.f[q.p].k = "toron" /\ s.f[q.p].w /\ s.d[q.p])
         IN  (IF can /\ e.want # "err" THEN { Out("ok", done) } ELSE {}) \union
             (IF can /\ e.want = "ok" THEN {} ELSE Refuse(s)) \union
             (IF e.want = "same" THEN { Out("ok", s) } ELSE {})
    [] e.op = "save" ->
         IF View(s, e.x) # Gone /\ Writable(s, e.p) THEN { Out("ok", Saved(s, e.x, e.p, e.c)) } ELSE Refuse(s)
    \* something goes wrong at some point of a save, or its process dies there
    [] e.op \in { "fsave", "ksave" } ->
         Refuse(s) \union
         (IF View(s, e.x) # Gone /\ Writable(s, e.p) THEN { Out(r, Saved(s, e.x, e.p, e.c)) : r \in { "ok", "err" } } ELSE {})
    \* what others do to the files
    [] e.op = "junk"   -> { Out("ok", [ s EXCEPT !.f[e.p] = [ k |-> "junk", c |-> e.c, w |-> TRUE ] ]) }
    [] e.op = "unlink" -> { Out("ok", [ s EXCEPT !.f[e.p] = Nothing ]) }
    [] e.op = "mkdir"  -> { Out("ok", [ s EXCEPT !.f[e.p] = [ k |-> "dir", c |-> 0, w |-> TRUE ] ]) }
    [] e.op = "copy"   -> { Out("ok", [ s EXCEPT !.f[e.p] = [ @ EXCEPT !.k = s.f[e.q].k, !.c = s.f[e.q].c, !.w = TRUE ] ]) }
    [] e.op = "chmod"  -> { Out("ok", [ s EXCEPT !.f[e.p].w = e.w ]) }
    [] e.op = "chdir"  -> { Out("ok", [ s EXCEPT !.d = [ p \in DOMAIN s.d |-> IF p \in e.ps THEN e.w ELSE s.d[p] ] ]) }

(* ---- the laws, stated on one step s -> t of event e ---- *)
Own == { "new", "read", "bind", "close", "mod", "save", "fsave", "ksave" }   \* by the system itself
\* C13: the target holds its old content or the complete space, every other file is untouched
SaveLaw(s, e, t) ==
  e.op \in { "save", "fsave", "ksave" } =>
    /\ \A p \in DOMAIN s.f \ { e.p } : t.f[p] = s.f[p]
    /\ \/ t.f[e.p] = s.f[e.p]
       \/ t.f[e.p].k = "toron" /\ t.sem[t.f[e.p].c] = [ v |-> View(s, e.x), u |-> Id(s, e.x) ]
\* C14: a copy changes no file and no other handle; read-only changes nothing; nothing is lost
CopyLaw(s, e, t) ==
  /\ e.op = "mod" /\ Copy(s.h[e.x].m) => t.f = s.f /\ \A y \in DOMAIN s.h \ { e.x } : View(t, y) = View(s, y)
  /\ e.op = "mod" /\ s.h[e.x].m = "ro" => t = s
  /\ e.op \in { "read", "close" } => t.f = s.f
  /\ e.op = "bind" /\ s.f[e.p].k # "none" => t.f = s.f
  /\ \A y \in DOMAIN s.h : Copy(s.h[y].m) /\ (e.op \notin { "mod", "close", "new", "read", "bind" } \/ e.x # y)
                             => View(t, y) = View(s, y)
DurableLaw(s, e, t) ==   \* what a handle shows is what its file holds
  \A y \in DOMAIN t.h : Bound(t.h[y].m) /\ t.f[t.h[y].p].k = "toron" => View(t, y) = t.sem[t.f[t.h[y].p].c].v
Laws(s, e, t) == SaveLaw(s, e, t) /\ CopyLaw(s, e, t) /\ DurableLaw(s, e, t)
=============================================================================
