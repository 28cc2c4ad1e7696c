------------------------------- MODULE Timeline -------------------------------
(* Periods as sets of instants, lists of electric segments as step functions of time (C18).
   An instant is a tuple of integers, the most significant first.  A period is [lo, hi], each <<>> (unbounded) or
   <<instant>>: the instants from lo on, before hi.  A segment is <<magnitude, length>>, the length Inf of one that
   never ends; times within a list of segments are integers, and so are all the places where its function changes. *)
EXTENDS Integers, Sequences, FiniteSets
Inf == -1
----
Cmp(a, b) == LET d == {i \in 1..Len(a) : a[i] # b[i]}
             IN IF d = {} THEN 0
                ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
\* x: <<>> the instant before all others, or <<instant>>
From(x, lo) == lo = <<>> \/ (x # <<>> /\ Cmp(lo[1], x[1]) <= 0)
Before(x, hi) == hi = <<>> \/ x = <<>> \/ Cmp(x[1], hi[1]) < 0
UpTo(x, hi) == hi = <<>> \/ x = <<>> \/ Cmp(x[1], hi[1]) <= 0
In(x, p) == From(x, p.lo) /\ Before(x, p.hi)
\* where two half-open periods have an instant in common, they have the later of their beginnings in common
Starts(p, q) == {<<>>, p.lo, q.lo}
Overlap(p, q) == \E x \in Starts(p, q) : In(x, p) /\ In(x, q)
\* ... or there is a place, between instants, that is not outside of either
Touch(p, q) == \E x \in Starts(p, q) : From(x, p.lo) /\ UpTo(x, p.hi) /\ From(x, q.lo) /\ UpTo(x, q.hi)
Proper(p) == p.lo = <<>> \/ p.hi = <<>> \/ Cmp(p.lo[1], p.hi[1]) <= 0
----
Mag(g) == g[1]
Length(g) == g[2]
\* how far the first i segments reach (they are finite)
RECURSIVE Reach(_, _)
Reach(l, i) == IF i = 0 THEN 0 ELSE Reach(l, i - 1) + Length(l[i])
Finite(l) == \A i \in DOMAIN l : Length(l[i]) # Inf
Ends(l) == IF Finite(l) THEN Len(l) ELSE Len(l) - 1
Total(l) == Reach(l, Ends(l))
\* the segment in force at d, Len(l)+1 if there is none
RECURSIVE ActiveFrom(_, _, _)
ActiveFrom(l, i, d) == IF i > Len(l) \/ Length(l[i]) = Inf \/ d < Length(l[i]) THEN i ELSE ActiveFrom(l, i + 1, d - Length(l[i]))
Active(l, d) == ActiveFrom(l, 1, d)
\* the function: defined where a segment is in force, 0 elsewhere
Def(l, d) == d >= 0 /\ Active(l, d) <= Len(l)
F(l, d) == IF Def(l, d) THEN Mag(l[Active(l, d)]) ELSE 0
Lasting(l) == {i \in DOMAIN l : Length(l[i]) # 0}
\* i is where the function is largest, from segment j on; Len(l)+1 if it is nowhere defined
Largest(l, j, i) == LET S == {x \in Lasting(l) : x >= j}
                    IN IF S = {} THEN i = Len(l) + 1 ELSE i \in S /\ \A x \in S : Mag(l[x]) <= Mag(l[i])
Samples(n) == -2 .. n + 2
Same(a, b, n) == \A x \in Samples(n) : Def(a, x) = Def(b, x) /\ F(a, x) = F(b, x)
Larger(a, b) == IF a > b THEN a ELSE b
\* out is l, later by d (what is before the beginning is gone)
Translated(out, l, d) == \A x \in 0 .. Larger(Total(l), Total(out)) + Larger(d, 0) + 2 :
                            /\ F(out, x) = IF x - d < 0 THEN 0 ELSE F(l, x - d)
                            /\ x >= d => Def(out, x) = Def(l, x - d)
RECURSIVE Sum(_, _)
Sum(ls, x) == IF ls = <<>> THEN 0 ELSE F(Head(ls), x) + Sum(Tail(ls), x)
RECURSIVE Widest(_)
Widest(ls) == IF ls = <<>> THEN 0 ELSE Larger(Total(Head(ls)), Widest(Tail(ls)))
Added(out, ls) == \A x \in Samples(Larger(Total(out), Widest(ls))) : F(out, x) = Sum(ls, x)
\* before and after (each <<>> or <<list>>, the second beginning at d) are l, split at d
Split(before, after, l, d) ==
  LET fd(x) == IF x < d THEN before # <<>> /\ Def(before[1], x) ELSE after # <<>> /\ Def(after[1], x - d)
      ff(x) == IF x < d THEN (IF before = <<>> THEN 0 ELSE F(before[1], x)) ELSE IF after = <<>> THEN 0 ELSE F(after[1], x - d)
  IN \A x \in Samples(Larger(Total(l), d)) : fd(x) = Def(l, x) /\ ff(x) = F(l, x)
\* and before ends at d, or where l does
EndsBy(before, d) == before # <<>> => Finite(before[1]) /\ Total(before[1]) <= d
----
(* A mode: segments from a start time on.  st is <<>> or <<t>>; without one, it is read from `at` on. *)
St(m, at) == IF m.st = <<>> THEN at ELSE m.st[1]
MDef(m, at, t) == Def(m.segs, t - St(m, at))
MF(m, at, t) == F(m.segs, t - St(m, at))
MEnd(m, at) == St(m, at) + Total(m.segs)
===============================================================================
