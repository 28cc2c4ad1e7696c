---------------------------- MODULE TimelineTrace ----------------------------
(* What the library computed for periods, timestamps, segments and modes (C18).  Sessions on periods compare each period
   of a table with all of them; sessions on lists keep registers of lists and of modes: what was generated, and what
   the library made of it, which is used in turn. *)
EXTENDS Timeline, TraceLib
ASSUME InitRegs
VARIABLES tab, ls, ms, s, l
vars == <<tab, ls, ms, s, l>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
None == [ts |-> <<>>, ps |-> <<>>]
Init == s \in 1..NSessions /\ l = 1 /\ tab = None /\ ls = <<>> /\ ms = <<>>
Keep == UNCHANGED <<tab, ls, ms>>
----
Table == Is("table") /\ tab' = [ts |-> Ev.ts, ps |-> Ev.ps] /\ UNCHANGED <<ls, ms>>
Bd(x) == IF x = 0 THEN <<>> ELSE <<tab.ts[x]>>
P(i) == [lo |-> Bd(tab.ps[i][1]), hi |-> Bd(tab.ps[i][2])]
Bit(b) == b = 1
\* row i: the i-th period with each, this way and the other way round
Row == /\ Is("row") /\ Keep
       /\ LET p == P(Ev.i) IN
          \A j \in DOMAIN tab.ps :
            LET q == P(j) IN
            /\ Bit(Ev.int[j]) = Overlap(p, q) /\ Bit(Ev.rint[j]) = Bit(Ev.int[j])
            /\ IF Proper(p) /\ Proper(q) THEN Bit(Ev.con[j]) = Touch(p, q) ELSE Overlap(p, q) => Bit(Ev.con[j])
            /\ Bit(Ev.rcon[j]) = Bit(Ev.con[j])
       /\ Ev.changed = <<>>
Order == /\ Is("order") /\ Keep /\ \A j \in DOMAIN tab.ts : Ev.cmp[j] = Cmp(tab.ts[Ev.i], tab.ts[j])
         /\ Ev.changed = <<>>
----
\* segments come as <<magnitude, length, shape>>; what is cut keeps its shape
G(x) == <<x[1], x[2]>>
Fn(x) == [i \in DOMAIN x |-> G(x[i])]
L(i) == Fn(ls[i])
Md(i) == [st |-> ms[i].st, segs |-> Fn(ms[i].segs)]
New == Is("new") /\ ls' = Append(ls, Ev.segs) /\ UNCHANGED <<tab, ms>>
\* vectors run over the times from Ev.from on
T(i) == Ev.from + i - 1
ActiveAt == /\ Is("active") /\ Keep
            /\ \A i \in DOMAIN Ev.el :
                 IF T(i) < 0 THEN Ev.el[i] = T(i) /\ Ev.ix[i] = 0
                 ELSE LET a == Active(L(Ev.r), T(i)) IN Ev.ix[i] = a - 1 /\ Ev.el[i] = Reach(L(Ev.r), a - 1)
MagAt == /\ Is("mag") /\ Keep
         /\ \A i \in DOMAIN Ev.lv : Ev.lv[i] = F(L(Ev.r), T(i)) /\ Bit(Ev.ok[i]) = Def(L(Ev.r), T(i))
Dur == Is("dur") /\ Keep /\ Ev.total = Total(L(Ev.r)) /\ Bit(Ev.inf) = ~Finite(L(Ev.r))
Max == /\ Is("max") /\ Keep
       /\ Largest(L(Ev.r), 1, Ev.ix + 1)
       /\ Ev.lv = IF Ev.ix = Len(ls[Ev.r]) THEN 0 ELSE Mag(L(Ev.r)[Ev.ix + 1])
MaxAfter == /\ Is("maxafter") /\ Keep
            /\ \A i \in DOMAIN Ev.ix : Largest(L(Ev.r), IF T(i) < 0 THEN 1 ELSE Active(L(Ev.r), T(i)), Ev.ix[i] + 1)
\* one segment cut
Cut1 == /\ Is("cut") /\ Keep
        /\ LET g == ls[Ev.r][Ev.k]
               l1 == <<G(g)>>
               d == Larger(Ev.d, 0)
               bef == IF Ev.before = <<>> THEN <<>> ELSE <<Fn(Ev.before)>>
               aft == IF Ev.after = <<>> THEN <<>> ELSE <<Fn(Ev.after)>>
           IN /\ Split(bef, aft, l1, d) /\ EndsBy(bef, d)
              /\ \A x \in {Ev.before, Ev.after} : x = <<>> \/ x[1][3] = g[3]
              /\ IF Ev.d < 0 THEN Bit(Ev.outside)
                 ELSE IF Length(g) = 0 /\ Ev.d = 0 THEN TRUE
                 ELSE Bit(Ev.outside) = (Length(g) # Inf /\ Ev.d >= Length(g))
Shift == /\ Is("shift") /\ UNCHANGED <<tab, ms>>
         /\ Translated(Fn(Ev.out), L(Ev.r), Ev.d)
         /\ ls' = Append(ls, Ev.out)
SumL == /\ Is("sum") /\ UNCHANGED <<tab, ms>>
        /\ Added(Fn(Ev.out), [i \in DOMAIN Ev.rs |-> L(Ev.rs[i])])
        /\ ls' = Append(ls, Ev.out)
----
MNew == Is("mnew") /\ ms' = Append(ms, [st |-> Ev.st, segs |-> Ev.segs]) /\ UNCHANGED <<tab, ls>>
MActive == /\ Is("mactive") /\ Keep
           /\ LET m == Md(Ev.r) IN
              \A i \in DOMAIN Ev.el :
                LET d == T(i) - St(m, T(i)) IN
                IF m.segs = <<>> /\ d < 0 THEN Ev.ix[i] = 0
                ELSE IF d < 0 THEN Ev.el[i] = d /\ Ev.ix[i] = 0
                ELSE LET a == Active(m.segs, d) IN Ev.ix[i] = a - 1 /\ Ev.el[i] = Reach(m.segs, a - 1)
MMag == /\ Is("mmag") /\ Keep
        /\ LET m == Md(Ev.r) IN
           \A i \in DOMAIN Ev.lv : Ev.lv[i] = MF(m, T(i), T(i)) /\ Bit(Ev.ok[i]) = MDef(m, T(i), T(i))
MMax == /\ Is("mmax") /\ Keep
        /\ LET m == Md(Ev.r) IN
           \A i \in DOMAIN Ev.ix :
             LET d == T(i) - St(m, T(i)) IN Largest(m.segs, IF d < 0 THEN 1 ELSE Active(m.segs, d), Ev.ix[i] + 1)
\* the smallest of several at a time, 0 where one has nothing to say
MMin == /\ Is("mmin") /\ Keep
        /\ LET v(r) == MF(Md(r), Ev.t, Ev.t) IN
           IF Ev.rs = <<>> THEN Ev.got = 0
           ELSE /\ \E i \in DOMAIN Ev.rs : Ev.rs[i] = Ev.got
                /\ Ev.lv = v(Ev.got) /\ \A i \in DOMAIN Ev.rs : Ev.lv <= v(Ev.rs[i])
Span(m, t) == Samples(Larger(MEnd(m, t), t))
MCut == /\ Is("mcut") /\ UNCHANGED <<tab, ls>>
        /\ LET m == Md(Ev.r)
               t == Ev.t
               bef == [i \in DOMAIN Ev.before |-> [st |-> Ev.before[i].st, segs |-> Fn(Ev.before[i].segs)]]
               aft == [i \in DOMAIN Ev.after |-> [st |-> Ev.after[i].st, segs |-> Fn(Ev.after[i].segs)]]
               \* without segments the mode is nowhere defined, and so are its parts
               pt(x) == IF x < t THEN bef ELSE aft
               empty == m.segs = <<>>
           IN /\ \A x \in Span(m, t) \cup {t - 1, t, St(m, t) - 1, St(m, t)} :
                   IF pt(x) = <<>> THEN ~MDef(m, t, x) /\ MF(m, t, x) = 0
                   ELSE MDef(pt(x)[1], t, x) = MDef(m, t, x) /\ MF(pt(x)[1], t, x) = MF(m, t, x)
              /\ \A i \in DOMAIN bef : empty \/ (Finite(bef[i].segs) /\ MEnd(bef[i], t) <= t)
                                       \/ ~\E x \in Span(m, t) : x >= t /\ MDef(bef[i], t, x)
              /\ IF m.st = <<>> THEN empty \/ ~Bit(Ev.outside)
                 ELSE IF Total(m.segs) = 0 /\ t = m.st[1] THEN TRUE
                 ELSE Bit(Ev.outside) = (t < m.st[1] \/ (Finite(m.segs) /\ t >= MEnd(m, t)))
              /\ \* the pieces of a segment that was cut have its shape
                 LET i == Active(m.segs, t - St(m, t))
                     d == t - St(m, t)
                 IN IF d > 0 /\ i <= Len(m.segs) /\ d > Reach(m.segs, i - 1)
                    THEN /\ bef # <<>> /\ Ev.before[1].segs[i][3] = ms[Ev.r].segs[i][3]
                         /\ aft # <<>> /\ Ev.after[1].segs[1][3] = ms[Ev.r].segs[i][3]
                    ELSE TRUE
        /\ ms' = ms \o Ev.before \o Ev.after
MShift == /\ Is("mshift") /\ UNCHANGED <<tab, ls>>
          /\ LET m == Md(Ev.r)
                 out == [st |-> Ev.out.st, segs |-> Fn(Ev.out.segs)]
             IN IF m.st = <<>> THEN out.st = <<>> /\ Translated(out.segs, m.segs, Ev.d)
                ELSE /\ out.st # <<>>
                     /\ \A x \in Samples(Larger(MEnd(m, 0), MEnd(out, 0)) + Larger(Ev.d, 0)) \cup {m.st[1], m.st[1] + Ev.d} :
                          MDef(out, 0, x) = MDef(m, 0, x - Ev.d) /\ MF(out, 0, x) = MF(m, 0, x - Ev.d)
                     /\ out.st = <<m.st[1] + Ev.d>>
          /\ ms' = Append(ms, Ev.out)
RECURSIVE SumAt(_, _, _)
SumAt(rs, at, x) == IF rs = <<>> THEN 0 ELSE MF(Md(Head(rs)), at, x) + SumAt(Tail(rs), at, x)
MSum == /\ Is("msum") /\ UNCHANGED <<tab, ls>>
        /\ IF Ev.rs = <<>> THEN Ev.out = <<>> /\ ms' = ms
           ELSE LET sts == {ms[Ev.rs[i]].st[1] : i \in {j \in DOMAIN Ev.rs : ms[Ev.rs[j]].st # <<>>}}
                    lo == IF sts = {} THEN 0 ELSE CHOOSE x \in sts : \A y \in sts : x <= y
                    hi == IF sts = {} THEN 0 ELSE CHOOSE x \in sts : \A y \in sts : x >= y
                    out == [st |-> Ev.out[1].st, segs |-> Fn(Ev.out[1].segs)]
                    ends == {MEnd(out, hi)} \cup {MEnd(Md(Ev.rs[i]), hi) : i \in DOMAIN Ev.rs}
                    last == CHOOSE x \in ends : \A y \in ends : x >= y
                IN /\ out.st = IF sts = {} THEN <<>> ELSE <<lo>>
                   /\ \A x \in lo - 2 .. last + 2 : MF(out, lo, x) = SumAt(Ev.rs, hi, x)
                   /\ ms' = Append(ms, Ev.out[1])
----
\* at the end of it: the registers that are not what they were when they were made
Left == Is("left") /\ Keep /\ Ev.changed = <<>>
Next == \/ Table \/ Row \/ Order \/ New \/ ActiveAt \/ MagAt \/ Dur \/ Max \/ MaxAfter \/ Cut1 \/ Shift \/ SumL
        \/ MNew \/ MActive \/ MMag \/ MMax \/ MMin \/ MCut \/ MShift \/ MSum \/ Left
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
View == <<s, l>>
==============================================================================
