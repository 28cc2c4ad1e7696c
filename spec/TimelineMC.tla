------------------------------ MODULE TimelineMC ------------------------------
(* The ways the library computes these things, against what they mean: cuts of the time line compared for periods,
   edges sorted and summed up for lists of segments, segments trimmed or lengthened for shifts.  With KeepAll FALSE
   summing drops whatever is left at the end and not positive, and is wrong (TimelineBadSum); with Strict FALSE an empty
   period overlaps what is around it (TimelineBadPeriod). *)
EXTENDS Timeline, TLC
CONSTANTS Instants, Pos, Neg, Lens, Long, Short, KeepAll, Strict, Part
VARIABLES p, q, a, b, d
vars == <<p, q, a, b, d>>
Bound == {<<>>} \cup {<<<<i, n>>>> : i \in Instants, n \in {0, 1}}
Periods == [lo : Bound, hi : Bound]
Mags == Pos \cup {-m : m \in Neg}
FinSegs == {<<m, n>> : m \in Mags, n \in Lens}
InfSegs == {<<m, Inf>> : m \in Mags}
UpToN(n) == UNION {[1..k -> FinSegs] : k \in 0..n}
Lists(n) == UpToN(n) \cup {Append(l, g) : l \in UpToN(n - 1), g \in InfSegs}
NoP == [lo |-> <<>>, hi |-> <<>>]
Init == CASE Part = "periods" -> p \in Periods /\ q \in Periods /\ a = <<>> /\ b = <<>> /\ d = 0
          [] Part = "one" -> p = NoP /\ q = NoP /\ a \in Lists(Long) /\ b = <<>> /\ d \in -5..5
          [] Part = "two" -> p = NoP /\ q = NoP /\ a \in Lists(Short) /\ b \in Lists(Short) /\ d = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
----
\* cuts: -1 below all, <<t>> below t, 1 above all -- as <<class, time>>
Lower(x) == IF x.lo = <<>> THEN <<-1, <<0, 0>>>> ELSE <<0, x.lo[1]>>
Upper(x) == IF x.hi = <<>> THEN <<1, <<0, 0>>>> ELSE <<0, x.hi[1]>>
CmpCut(x, y) == IF x[1] # y[1] THEN (IF x[1] < y[1] THEN -1 ELSE 1) ELSE IF x[1] # 0 THEN 0 ELSE Cmp(x[2], y[2])
IntersectAlg(x, y) == /\ CmpCut(Lower(x), Upper(y)) < 0 /\ CmpCut(Lower(y), Upper(x)) < 0
                      /\ Strict => CmpCut(Lower(x), Upper(x)) < 0 /\ CmpCut(Lower(y), Upper(y)) < 0
ConnectedAlg(x, y) == CmpCut(Lower(x), Upper(y)) <= 0 /\ CmpCut(Lower(y), Upper(x)) <= 0
\* every instant there is (and the one before them all)
All == {<<>>} \cup {<<<<i, n>>>> : i \in {j - 1 : j \in Instants} \cup Instants \cup {j + 1 : j \in Instants}, n \in {0, 1, 2}}
PeriodsRight == /\ Overlap(p, q) = (\E x \in All : In(x, p) /\ In(x, q))
                /\ Overlap(p, q) = Overlap(q, p) /\ Touch(p, q) = Touch(q, p)
                /\ Overlap(p, q) => Touch(p, q)
                /\ IntersectAlg(p, q) = Overlap(p, q)
                /\ Proper(p) /\ Proper(q) => ConnectedAlg(p, q) = Touch(p, q)
----
ShiftUp(l, n) == IF Mag(l[1]) = 0 THEN (IF Length(l[1]) = Inf THEN l ELSE <<<<0, Length(l[1]) + n>>>> \o Tail(l))
                 ELSE <<<<0, n>>>> \o l
RECURSIVE ShiftDown(_, _)
ShiftDown(l, n) == IF l = <<>> \/ Length(l[1]) = Inf THEN l
                   ELSE IF Length(l[1]) > n THEN <<<<Mag(l[1]), Length(l[1]) - n>>>> \o Tail(l)
                   ELSE ShiftDown(Tail(l), n - Length(l[1]))
ShiftAlg(l, n) == IF n = 0 \/ l = <<>> THEN l ELSE IF n > 0 THEN ShiftUp(l, n) ELSE ShiftDown(l, -n)
CutBefore(l, n) == LET i == Active(l, n) IN
                   IF n <= 0 THEN <<>>
                   ELSE IF i > Len(l) THEN <<l>>
                   ELSE LET k == n - Reach(l, i - 1) IN <<SubSeq(l, 1, i - 1) \o IF k = 0 THEN <<>> ELSE <<<<Mag(l[i]), k>>>>>>
CutAfter(l, n) == LET i == Active(l, n) IN
                  IF n <= 0 THEN <<l>>
                  ELSE IF i > Len(l) THEN <<>>
                  ELSE LET k == n - Reach(l, i - 1) IN
                       <<<<<<Mag(l[i]), IF Length(l[i]) = Inf THEN Inf ELSE Length(l[i]) - k>>>> \o SubSeq(l, i + 1, Len(l))>>
Edges(l) == {<<i, 0>> : i \in DOMAIN l} \cup {<<i, 1>> : i \in {j \in DOMAIN l : Length(l[j]) # Inf}}
EdgeAt(l, e) == Reach(l, e[1] - 1 + e[2])
RECURSIVE AddUp(_, _)
AddUp(l, S) == IF S = {} THEN 0 ELSE LET e == CHOOSE e \in S : TRUE IN (IF e[2] = 0 THEN Mag(l[e[1]]) ELSE -Mag(l[e[1]])) + AddUp(l, S \ {e})
Times == {EdgeAt(a, e) : e \in {x \in Edges(a) : Mag(a[x[1]]) # 0}} \cup {EdgeAt(b, e) : e \in {x \in Edges(b) : Mag(b[x[1]]) # 0}}
Delta(t) == AddUp(a, {e \in Edges(a) : EdgeAt(a, e) = t}) + AddUp(b, {e \in Edges(b) : EdgeAt(b, e) = t})
RECURSIVE Build(_, _, _)
\* (at is where the last of res begins; it has no end yet)
Build(T, res, at) ==
  IF T = {} THEN res
  ELSE LET t == CHOOSE t \in T : \A u \in T : t <= u
           r == IF res = <<>> THEN <<<<0, Inf>>>> ELSE res
           n == Len(r)
       IN IF t = at THEN Build(T \ {t}, [r EXCEPT ![n] = <<Mag(@) + Delta(t), Inf>>], at)
          ELSE Build(T \ {t}, Append([r EXCEPT ![n] = <<Mag(@), t - at>>], <<Mag(r[n]) + Delta(t), Inf>>), t)
SumAlg == LET r == Build(Times, <<>>, 0)
              last == r[Len(r)]
          IN IF r # <<>> /\ (IF KeepAll THEN Mag(last) = 0 ELSE Mag(last) <= 0) THEN SubSeq(r, 1, Len(r) - 1) ELSE r
SumRight == Added(SumAlg, <<a, b>>)
ListsRight == /\ Translated(ShiftAlg(a, d), a, d)
              /\ d >= 0 => Translated(ShiftAlg(ShiftAlg(a, d), -d), a, 0)
              /\ Split(CutBefore(a, d), CutAfter(a, d), a, Larger(d, 0)) /\ EndsBy(CutBefore(a, d), d)
              /\ \E i \in 1..Len(a) + 1 : Largest(a, 1, i)
              /\ \A i \in 1..Len(a) : Largest(a, 1, i) => \E x \in Samples(Total(a)) : Def(a, x) /\ F(a, x) = Mag(a[i])
              /\ \A x \in Samples(Total(a)) : Def(a, x) => \A i \in 1..Len(a) : Largest(a, 1, i) => F(a, x) <= Mag(a[i])
              \* a list and the segments of it that last are the same function
              /\ Same(a, SelectSeq(a, LAMBDA g : g[2] # 0), Total(a))
Right == CASE Part = "periods" -> PeriodsRight [] Part = "one" -> ListsRight [] Part = "two" -> SumRight
===============================================================================
