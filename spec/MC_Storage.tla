------------------------------ MODULE MC_Storage ------------------------------
(* The mechanism behind Storage.tla, step by step: a save writes a temporary  *)
(* file and then renames it; a modification of a bound file writes its pages  *)
(* after putting the old ones in a journal, and commits by removing it; the   *)
(* operation may fail or its process may die between any two steps.  Every    *)
(* such run has to be one of the outcomes of Storage.tla.  The histories are  *)
(* printed and replayed on the code.                                          *)
EXTENDS Storage, Json, IOUtils

PROFILE == IOEnv.PROFILE
DEPTH == CHOOSE k \in 0 .. 9 : ToString(k) = IOEnv.DEPTH
EMIT == IOEnv.EMIT = "1"
Paths   == { "p1", "p2" }
Handles == { "x1", "x2", "x3" }

VARIABLES
  s,        \* the abstract state of Storage.tla
  disk,     \* path -> pages and journal of the file there
  proc,     \* the operation that is running, and how far it is
  tmp,      \* temporary files, left or in use
  hist, n, fresh
vars == << s, disk, proc, tmp, hist, n, fresh >>

Pages(c) == << c, c >>                   \* a file of content c has two pages
NoFile == [ k |-> "none", pg |-> << 0, 0 >>, jr |-> << >> ]
Idle == [ pc |-> "idle" ]

\* what a file holds for whoever opens it next: a journal is rolled back first
Content(D) == IF D.jr = << >> THEN D.pg ELSE D.jr
Abstract(D, w) == [ k |-> IF D.k = "toron" /\ Content(D)[1] # Content(D)[2] THEN "torn" ELSE D.k,
                    c |-> Content(D)[1], w |-> w ]
Recovered(D) == [ D EXCEPT !.pg = Content(D), !.jr = << >> ]

Start ==
  [ f |-> [ p \in Paths |-> IF p = "p1" THEN [ k |-> "toron", c |-> 1, w |-> TRUE ] ELSE Nothing ],
    d |-> [ p \in Paths |-> TRUE ],
    h |-> [ x \in Handles |-> IF x = "x1" THEN [ m |-> "mem", p |-> "", v |-> 1, u |-> 1 ] ELSE NoHandle ],
    sem |-> (1 :> [ v |-> 1, u |-> 1 ]) ]
Init == /\ s = Start /\ proc = Idle /\ tmp = {} /\ hist = << >> /\ n = 0 /\ fresh = 2
        /\ disk = [ p \in Paths |-> IF p = "p1" THEN [ k |-> "toron", pg |-> Pages(1), jr |-> << >> ] ELSE NoFile ]

Free(x) == s.h[x].m = "no"
First == IF Free("x1") THEN { "x1" } ELSE IF Free("x2") THEN { "x2" } ELSE IF Free("x3") THEN { "x3" } ELSE {}
Live == { x \in Handles : ~ Free(x) }
Events ==
  { [ op |-> "read", x |-> x, p |-> p, m |-> m ] : x \in First, p \in Paths, m \in { "mem", "drive" } } \union
  { [ op |-> "bind", x |-> x, p |-> p, m |-> m ] : x \in First, p \in Paths, m \in { "ro", "rw", "rwc" } } \union
  { [ op |-> "mod", x |-> x, want |-> "any" ] : x \in Live } \union
  { [ op |-> "save", x |-> x, p |-> p, sync |-> b ] : x \in Live, p \in Paths, b \in { TRUE } } \union
  (IF PROFILE = "faults"
   THEN { [ op |-> o, x |-> x, p |-> p, sync |-> b, how |-> "point" ] : o \in { "fsave", "ksave" }, x \in Live, p \in Paths, b \in BOOLEAN }
   ELSE { [ op |-> "close", x |-> x ] : x \in { y \in Live : y # "x1" } } \union
        { [ op |-> "chmod", p |-> p, w |-> w ] : p \in { q \in Paths : s.f[q].k = "toron" }, w \in BOOLEAN } \union
        { [ op |-> "junk", p |-> "p2", kind |-> "text" ] : q \in { r \in { "p2" } : s.f[r].k = "none" } })

(* instant operations follow Storage.tla and move no page                     *)
Instant(e) == e.op \in { "read", "bind", "close", "chmod", "junk" }
WithNew(e) == e @@ [ c |-> fresh, v |-> fresh, u |-> fresh ]
Log(e) == /\ hist' = Append(hist, e)
          /\ IF EMIT THEN PrintT("@@C " \o ToJson(hist')) ELSE TRUE
ToDisk(t, p) == [ k |-> t.f[p].k, pg |-> Pages(t.f[p].c), jr |-> << >> ]

Do(e) ==
  /\ proc = Idle /\ n < DEPTH /\ Instant(e)
  /\ \E o \in Outcomes(s, WithNew(e)) :
       /\ s' = o.s
       /\ disk' = [ p \in Paths |-> IF o.s.f[p] = s.f[p] THEN disk[p] ELSE ToDisk(o.s, p) ]
  /\ fresh' = fresh + 1 /\ n' = n + 1 /\ Log(e) /\ UNCHANGED << proc, tmp >>

(* ---- operations that take steps ---- *)
Begin(e) ==
  /\ proc = Idle /\ n < DEPTH /\ ~ Instant(e)
  /\ proc' = [ pc |-> "begin", e |-> e, new |-> fresh, steps |-> 0 ]
  /\ fresh' = fresh + 1 /\ n' = n + 1 /\ UNCHANGED << s, disk, tmp, hist >>

e == proc.e
Own1 == s.h[e.x]
IsSave == e.op \in { "save", "fsave", "ksave" }
Faulty == e.op \in { "fsave", "ksave" }
(* the operation has ended: with result r, what a handle of its own shows now *)
Finish(r, D, own, T) ==
  LET ev == e @@ [ c |-> proc.new, v |-> proc.new, u |-> proc.new ]
      shown == [ p \in Paths |-> Abstract(D[p], TRUE) ]
      fits(o) == /\ o.res = r
                 /\ \A p \in Paths : o.s.f[p].k = shown[p].k /\ o.s.f[p].c = shown[p].c
                 /\ Copy(Own1.m) => o.s.h[e.x].v = own
      ok == { o \in Outcomes(s, ev) : fits(o) }
  IN  /\ IF ok # {} THEN TRUE ELSE PrintT("@@MFAIL " \o ToJson([ h |-> Append(hist, e), res |-> r ]))
      /\ ok # {} => \E o \in ok : s' = o.s /\ (IF Laws(s, ev, o.s) THEN TRUE ELSE PrintT("@@MFAIL " \o ToJson([ h |-> Append(hist, e), res |-> "law" ])))
      /\ ok = {} => s' = s
      /\ disk' = D /\ tmp' = T /\ proc' = Idle
      /\ Log(IF Faulty THEN e @@ [ step |-> proc.steps ] ELSE e)
      /\ UNCHANGED << n, fresh >>
Step(pc) == proc' = [ proc EXCEPT !.pc = pc, !.steps = @ + 1 ] /\ UNCHANGED << s, hist, n, fresh >>

SaveSteps ==
  /\ IsSave
  /\ CASE proc.pc = "begin" ->
            IF View(s, e.x) = Gone \/ ~ Writable(s, e.p) THEN Finish("err", disk, Own1.v, tmp)
            ELSE Step("made") /\ tmp' = tmp \union { << 0, 0 >> } /\ UNCHANGED disk
       [] proc.pc = "made"   -> Step("half") /\ tmp' = (tmp \ { << 0, 0 >> }) \union { << proc.new, 0 >> } /\ UNCHANGED disk
       [] proc.pc = "half"   -> Step("full") /\ tmp' = (tmp \ { << proc.new, 0 >> }) \union { Pages(proc.new) } /\ UNCHANGED disk
       [] proc.pc = "full"   -> Step("moved") /\ tmp' = tmp \ { Pages(proc.new) }
                                /\ disk' = [ disk EXCEPT ![e.p] = [ k |-> "toron", pg |-> Pages(proc.new), jr |-> << >> ] ]
       [] proc.pc = "moved"  -> Finish("ok", disk, Own1.v, tmp)
       [] OTHER -> FALSE
\* it fails: the temporary file is removed; or its process dies: it stays
SaveFails == /\ IsSave /\ Faulty /\ proc.pc # "begin"
             /\ Finish("err", disk, Own1.v, IF e.op = "fsave" THEN { x \in tmp : x[1] # proc.new /\ x # << 0, 0 >> } ELSE tmp)

ModSteps ==
  /\ e.op = "mod"
  /\ LET p == Own1.p
         can == Own1.m = "rw" /\ s.f[p].k = "toron" /\ s.f[p].w /\ s.d[p]
     IN CASE proc.pc = "begin" /\ Copy(Own1.m) -> Finish("ok", disk, proc.new, tmp)
          [] proc.pc = "begin" /\ ~ Copy(Own1.m) ->
               IF ~ can THEN Finish("err", disk, Own1.v, tmp)
               ELSE Step("journal") /\ disk' = [ disk EXCEPT ![p].jr = disk[p].pg ] /\ UNCHANGED tmp
          [] proc.pc = "journal" -> Step("one") /\ disk' = [ disk EXCEPT ![p].pg[1] = proc.new ] /\ UNCHANGED tmp
          [] proc.pc = "one"     -> Step("two") /\ disk' = [ disk EXCEPT ![p].pg[2] = proc.new ] /\ UNCHANGED tmp
          [] proc.pc = "two"     -> Step("done") /\ disk' = [ disk EXCEPT ![p].jr = << >> ] /\ UNCHANGED tmp
          [] proc.pc = "done"    -> Finish("ok", disk, Own1.v, tmp)
          [] OTHER -> FALSE
\* it fails, or its process dies and the next one to open the file recovers it
ModFails == /\ e.op = "mod" /\ proc.pc \in { "journal", "one", "two" }
            /\ Finish("err", [ disk EXCEPT ![Own1.p] = Recovered(@) ], Own1.v, tmp)

Next == (\E ev \in Events : Do(ev) \/ Begin(ev)) \/ (proc # Idle /\ (SaveSteps \/ SaveFails \/ ModSteps \/ ModFails))

(* at every single moment a reader finds a whole file, the old or the new one *)
Whole ==
  \A p \in Paths :
    LET a == Abstract(disk[p], TRUE) IN
    /\ a.k # "torn"
    /\ \/ a.k = s.f[p].k /\ a.c = s.f[p].c
       \/ proc # Idle /\ a.k = "toron" /\ a.c = proc.new /\ (IF IsSave THEN e.p = p ELSE Own1.p = p)
Key == << s, disk, proc, n, IF EMIT THEN hist ELSE << >> >>
=============================================================================
