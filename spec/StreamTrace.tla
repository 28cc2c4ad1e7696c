----------------------------- MODULE StreamTrace -----------------------------
(* Recorded runs of one writer and several subscribers.  Writes are judged by StoreConc!Effect, each subscriber's stream
   against the script of Stream. *)
EXTENDS Stream, TraceLib
SC == INSTANCE StoreConc
ASSUME InitRegs
VARIABLES m, t, log, from, s, l
vars == <<m, t, log, from, s, l>>
Cfg == Sessions[s].cfg
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Init == /\ s \in 1..NSessions /\ l = 1 /\ log = <<>> /\ from = [x \in {} |-> 0]
        /\ m = Cfg.init /\ t = [x \in DOMAIN m |-> 0]
SeqSet(q) == {q[i] : i \in DOMAIN q}
IsValue == Cfg.kind = "value"
Has(f, id) == id \in DOMAIN f
Opt(f, id) == IF Has(f, id) THEN <<f[id]>> ELSE <<>>

\* a write and when it happened: at an instant the clock told during the call, or when it was told to have happened
Write ==
  /\ Is("write")
  /\ \E o \in SC!Effect(m, Ev.op) :
       /\ o.code = Ev.code
       /\ Ev.code = "OK" /\ Ev.op.op # "delete" => Ev.ret = o.ret
       /\ m' = o.m
       /\ LET id == Ev.op.id
              changed == Ev.code = "OK" /\ (Has(o.m, id) \/ Has(m, id))
              kind == IF ~Has(o.m, id) THEN "REMOVE" ELSE IF Has(m, id) THEN "UPDATE" ELSE "ADD"
          IN IF changed
             THEN /\ log' = Append(log, [id |-> id, kind |-> kind, old |-> Opt(m, id), new |-> Opt(o.m, id),
                                         lo |-> IF Ev.wt # -1 THEN Ev.wt ELSE Ev.lo, hi |-> IF Ev.wt # -1 THEN Ev.wt ELSE Ev.hi])
                  /\ t' = IF Has(o.m, id) THEN SetF(t, id, Len(log) + 1) ELSE DelF(t, id)
             ELSE UNCHANGED <<log, t>>
  /\ UNCHANGED from
Sub == /\ Is("sub") /\ from' = SetF(from, Ev.k, [at |-> Len(log), m |-> m, t |-> t])
       /\ UNCHANGED <<m, t, log>>

\* half open periods, an absent bound is infinitely far: they share an instant
Below(a, b) == a = <<>> \/ b = <<>> \/ a[1] < b[1]
Meet(p, q) == ~p.nil /\ ~q.nil /\ Below(p.lo, q.hi) /\ Below(q.lo, p.hi)
\* the table, or for bookings the period they have to intersect (their first field numbers their period, from 0)
Inc(k) == [all |-> k.inc.all,
           acc |-> IF "q" \in DOMAIN k.inc
                   THEN {<<id, a>> \in SeqSet(Cfg.ids) \X (0..(Len(Cfg.periods) - 1)) : Meet(Cfg.periods[a + 1], k.inc.q)}
                   ELSE SeqSet(k.inc.acc)]
List == /\ Is("list")
        /\ LET f == MapF(Ev.mask, Filtered(Inc(Ev), m))
               q == InOrder(f, Cfg.ids)
           IN Ev.r = [i \in DOMAIN q |-> f[q[i]]]
        /\ UNCHANGED <<m, t, log, from>>

TimeOK(i, time) == IF i = 0 THEN time >= Cfg.t0lo /\ time <= Cfg.t0hi ELSE time >= log[i].lo /\ time <= log[i].hi
\* seeds: the filtered items in id order, the last one flagged
SeedsOf(k) ==
  LET b == from[k.k]
      f == Filtered(Inc(k), b.m)
      g == IF k.pid = "" THEN f ELSE [x \in DOMAIN f \cap {k.pid} |-> f[x]]
      q == InOrder(g, Cfg.ids)
  IN IF k.only THEN <<>>
     ELSE [i \in DOMAIN q |-> [id |-> q[i], new |-> <<Proj(k.mask, g[q[i]])>>, li |-> b.t[q[i]], last |-> i = Len(q)]]
Plain(k) == IsValue \/ k.pid # ""          \* events carry only a value
SeedMatches(k, e, x) ==
  /\ e.seed /\ e.last = x.last /\ e.new = x.new /\ TimeOK(x.li, e.time)
  /\ Plain(k) \/ (e.id = x.id /\ e.kind = "ADD" /\ e.old = <<>>)

EventMatches(k, held, e, x, i) ==
  /\ ~e.seed /\ ~e.last /\ e.new = x.new /\ TimeOK(i, e.time)
  /\ Plain(k) \/ /\ e.id = x.id /\ e.kind = x.kind
                 \* after suppressed events the old value may be the last one delivered
                 /\ \/ e.old = x.old
                    \/ /\ x.old # <<>> /\ Cfg.eq # "none" /\ Has(held, x.id) /\ e.old = <<held[x.id]>>

\* Script(k, i, held, r): r is what k must be told from the i-th write on, holding `held`
RECURSIVE Script(_, _, _, _)
Script(k, i, held, r) ==
  IF i > Len(log) THEN r = <<>> /\ (k.pid # "" => ~k.closed)
  ELSE LET inc == Include(Inc(k), log[i])
           rest == Script(k, i + 1, held, r)
           deliver(x) == /\ r # <<>> /\ EventMatches(k, held, r[1], x, i)
                         /\ Script(k, i + 1, IF x.kind = "REMOVE" THEN DelF(held, x.id) ELSE SetF(held, x.id, x.new[1]), Tail(r))
       IN IF (k.pid # "" /\ log[i].id # k.pid) \/ inc = <<>> THEN rest
          ELSE LET x == Masked(k.mask, inc[1])
               IN IF x.kind = "REMOVE" /\ k.pid # "" THEN r = <<>> /\ k.closed
                  ELSE IF x.new # <<>> /\ Has(held, x.id) /\ Equiv(Cfg.eq, held[x.id], x.new[1]) THEN rest
                  ELSE IF x.new # <<>> /\ x.old # <<>> /\ ~Has(held, x.id) /\ Equiv(Cfg.eq, x.old[1], x.new[1])
                       \* never told about the item: it may or may not count as holding what was there
                       THEN rest \/ deliver(x)
                  ELSE deliver(x)
Follows(k) ==
  LET seeds == SeedsOf(k)
      n == Len(seeds)
      r == k.events
  IN /\ k.done
     /\ Len(r) >= n
     /\ \A i \in 1..n : SeedMatches(k, r[i], seeds[i])
     /\ Script(k, from[k.k].at + 1, [x \in {seeds[i].id : i \in 1..n} |-> (CHOOSE y \in {seeds[i] : i \in 1..n} : y.id = x).new[1]],
               SubSeq(r, n + 1, Len(r)))

\* without backpressure only the fold is settled
RECURSIVE FoldL(_, _)
FoldL(f, es) == IF es = <<>> THEN f
                ELSE FoldL(IF Head(es).new = <<>> THEN DelF(f, Head(es).id) ELSE SetF(f, Head(es).id, Head(es).new[1]), Tail(es))
Folds(k) == k.done /\ ~k.only /\
            FoldL([x \in {} |-> <<>>], k.events) = MapF(k.mask, Filtered(Inc(k), m))

Script1 == Is("stream") /\ (IF Ev.bp THEN Follows(Ev) ELSE Folds(Ev)) /\ UNCHANGED <<m, t, log, from>>

\* everyone is told the same time for the same write, and it is the one stored with it (sessions without equivalence)
Assoc(k) ==
  LET seeds == SeedsOf(k)
      n == Len(seeds)
      at == SelectSeq([i \in 1..(Len(log) - from[k.k].at) |-> from[k.k].at + i],
                      LAMBDA i : (k.pid = "" \/ log[i].id = k.pid) /\ Include(Inc(k), log[i]) # <<>>)
      r == k.events
  IN {<<seeds[i].li, r[i].time>> : i \in 1..n} \cup
     {<<at[j], r[n + j].time>> : j \in 1..(Len(r) - n)}
Times == /\ Is("times")
         /\ LET ks == {Ev.subs[i] : i \in DOMAIN Ev.subs}
                as == UNION {Assoc(k) : k \in ks}
            IN \A p, q \in as : (p[1] = q[1] /\ p[1] # 0) => p[2] = q[2]
         /\ UNCHANGED <<m, t, log, from>>
Next == Write \/ Sub \/ List \/ Script1 \/ Times
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
