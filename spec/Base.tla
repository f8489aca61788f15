-------------------------------- MODULE Base --------------------------------
(* Utilities shared by all modules: numbers, folds, bit sequences and the   *)
(* meaning of selector expressions.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

NOID   == -9          \* an empty index-id cell
JUNKID == -8          \* an index-id cell that is not a number
BLANK  == -900001     \* an empty numeric cell
BAD    == -900002     \* a cell that is not a (finite) number
SCALE  == 720720      \* fixed-point unit for proportions and quantities
NULLP  == -1          \* a proportion that has not been calculated

SumBy(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
SumSeq(q)      == FoldLeft(LAMBDA a, x : a + x, 0, q)
Abs(x)         == IF x < 0 THEN 0 - x ELSE x
Only(S)        == CHOOSE x \in S : TRUE
MaxOf(S, d)    == IF S = {} THEN d ELSE Max(S)
RECURSIVE Pow(_, _)
Pow(b, e)      == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

(* floor(a*b/c) for 0 <= a < 2^31, 0 <= b <= c <= 2^22, without overflow *)
MulDiv(a, b, c) ==
  LET digits == << (a \div 16777216), (a \div 65536) % 256, (a \div 256) % 256, a % 256 >>
      step(acc, d) == LET t == 256 * acc[2] + d * b
                      IN  << 256 * acc[1] + (t \div c), t % c >>
  IN  FoldLeft(step, << 0, 0 >>, digits)[1]
SMulDiv(a, b, c) == IF a < 0 THEN 0 - MulDiv(0 - a, b, c) ELSE MulDiv(a, b, c)

(* bit sequences, aligned with the label columns *)
Zeros(n)     == [ i \in 1..n |-> 0 ]
Ones(n)      == [ i \in 1..n |-> 1 ]
Or(a, b)     == [ i \in DOMAIN a |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0 ]
SubBits(a,b) == \A i \in DOMAIN a : a[i] = 1 => b[i] = 1
ProperSub(a,b) == SubBits(a, b) /\ a # b
BitCount(a)  == Cardinality({ i \in DOMAIN a : a[i] = 1 })
UnionAll(S, n) == FoldSet(LAMBDA x, acc : Or(x, acc), Zeros(n), S)
Closure(S, n)  == FoldSet(LAMBDA d, acc : acc \union { Or(d, x) : x \in acc }, { Zeros(n) }, S)
MinGen(S, n)   == { d \in S : d # UnionAll({ x \in S : ProperSub(x, d) }, n) }

Pos(q, x)   == CHOOSE i \in DOMAIN q : q[i] = x
Has(q, x)   == \E i \in DOMAIN q : q[i] = x
NoDup(q)    == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* move element x of sequence q by offset k, stopping at the ends *)
MoveBy(q, x, k) ==
  LET p == Pos(q, x)
      n == Len(q)
      t == IF p + k < 1 THEN 1 ELSE IF p + k > n THEN n ELSE p + k
      r == SubSeq(q, 1, p - 1) \o SubSeq(q, p + 1, n)
  IN  SubSeq(r, 1, t - 1) \o << x >> \o SubSeq(r, t, n - 1)

---------------------------------------------------------------------------
(* strings *)
Ch(s, i)      == SubSeq(s, i, i)
StartsW(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsW(s, p)   == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasSub(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
LOWER == "abcdefghijklmnopqrstuvwxyz"
UPPER == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
UpCh(c) == IF \E i \in 1..26 : Ch(LOWER, i) = c
           THEN LET i == CHOOSE i \in 1..26 : Ch(LOWER, i) = c IN Ch(UPPER, i) ELSE c
UpStr(s) == FoldLeft(LAMBDA a, i : a \o UpCh(Ch(s, i)), "", [ i \in 1..Len(s) |-> i ])
(* w is one of the words of s separated by white space (w is never empty) *)
White == { " ", "\t", "\n", "\r", "\f" }
IsWord(s, w) ==
  \E i \in 1..(Len(s) - Len(w) + 1) :
     /\ SubSeq(s, i, i + Len(w) - 1) = w
     /\ (i = 1 \/ Ch(s, i - 1) \in White)
     /\ (i + Len(w) - 1 = Len(s) \/ Ch(s, i + Len(w)) \in White)
     /\ \A j \in 1..Len(w) : Ch(w, j) \notin White

---------------------------------------------------------------------------
(* Selectors.  A selector is a sequence:                                    *)
(*   <<"s", attr, op, val, ic>>   simple ("" op: presence; ic: "i" or "")   *)
(*   <<"c", kids>> all of    <<"is", kids>> any of                          *)
(*   <<"not", kids>> none of    <<"where", kids>> any of, no specificity    *)
(* A row is a set of <<name, value>> pairs; a missing name reads as "".     *)
AttrVal(row, a) == IF \E p \in row : p[1] = a THEN (CHOOSE p \in row : p[1] = a)[2] ELSE ""
SimpleMatch(op, ic, v0, x0) ==
  LET v == IF ic = "i" THEN UpStr(v0) ELSE v0
      x == IF ic = "i" THEN UpStr(x0) ELSE x0
  IN  CASE op = ""   -> x0 # ""
        [] op = "="  -> x = v
        [] op = "~=" -> IsWord(x, v)
        [] op = "|=" -> x = v \/ StartsW(x, v \o "-")
        [] op = "^=" -> StartsW(x, v)
        [] op = "$=" -> EndsW(x, v)
        [] op = "*=" -> HasSub(x, v)
RECURSIVE SelMatch(_, _)
SelMatch(sel, row) ==
  IF sel[1] = "s" THEN SimpleMatch(sel[3], sel[5], sel[4], AttrVal(row, sel[2]))
  ELSE LET kids == sel[2] IN
    CASE sel[1] = "c"     -> \A k \in DOMAIN kids : SelMatch(kids[k], row)
      [] sel[1] = "not"   -> \A k \in DOMAIN kids : ~ SelMatch(kids[k], row)
      [] OTHER            -> \E k \in DOMAIN kids : SelMatch(kids[k], row)
LexLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
LexMax(a, b)  == IF LexLess(a, b) THEN b ELSE a
RECURSIVE SelSpec(_)
SelSpec(sel) ==
  IF sel[1] = "s" THEN << 1, IF sel[3] = "" THEN 0 ELSE 1 >>
  ELSE LET kids == sel[2] IN
    CASE sel[1] = "c"     -> FoldLeft(LAMBDA a, k : << a[1] + SelSpec(k)[1], a[2] + SelSpec(k)[2] >>, << 0, 0 >>, kids)
      [] sel[1] = "where" -> << 0, 0 >>
      [] OTHER            -> FoldLeft(LAMBDA a, k : LexMax(a, SelSpec(k)), << 0, 0 >>, kids)

(* cands: a set of <<key, sequence of selectors>>.  The candidate whose     *)
(* best matching selector has the greatest specificity that no other        *)
(* matching candidate shares; otherwise the default.                        *)
MatchSpec(sels, row) ==     \* set of specificities of the matching selectors
  { SelSpec(sels[k]) : k \in { j \in DOMAIN sels : SelMatch(sels[j], row) } }
BestSpec(S) == CHOOSE x \in S : \A y \in S : ~ LexLess(x, y)
Choose1(cands, row, default) ==
  LET matched == { c \in cands : MatchSpec(c[2], row) # {} }
      sp(c)   == BestSpec(MatchSpec(c[2], row))
      pairs   == { << c[1], sp(c) >> : c \in matched }
      unique  == { p \in pairs : \A q \in pairs : q[2] = p[2] => q[1] = p[1] }
  IN  IF unique = {} THEN default
      ELSE (CHOOSE p \in unique : \A q \in unique : ~ LexLess(p[2], q[2]))[1]
=============================================================================
