-------------------------------- MODULE Traits --------------------------------
(* The rules of trait models that keep derived state (C20), one section per model: what a state is, and which states
   and answers an operation may lead to. An outcome is [z, code, ...]; code "OK" or an error that leaves z as it was. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Abs(n) == IF n < 0 THEN -n ELSE n
Ok(z) == [z |-> z, code |-> "OK"]
Fails(z, codes) == {[z |-> z, code |-> c] : c \in codes}
AnyError == {"Canceled", "Unknown", "InvalidArgument", "NotFound", "AlreadyExists", "FailedPrecondition", "Aborted",
             "OutOfRange", "Unimplemented", "Internal"}

(* ---- parent: names of children -> sets of traits (numbers, in the order of the traits' names) ---- *)
ParentStep(z, o) ==
  LET has == o.id \in DOMAIN z
      more == ToSet(o.t)
  IN CASE o.op = "add"    -> IF has THEN {Ok(z)} ELSE {Ok(Put(z, o.id, more))}
       [] o.op = "union"  -> {Ok(Put(z, o.id, IF has THEN z[o.id] \cup more ELSE more))}
       [] o.op = "minus"  -> IF has THEN {Ok(Put(z, o.id, z[o.id] \ more))} ELSE {Ok(z)}
       [] o.op = "remove" -> IF has THEN {Ok(Drop(z, o.id))}
                             ELSE IF o.allow THEN {Ok(z)} ELSE Fails(z, {"NotFound"})
\* a list shows a set: sorted, and nothing twice
Shows(q, S) == ToSet(q) = S /\ \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
ParentIs(z, now) == DOMAIN now = DOMAIN z /\ \A n \in DOMAIN z : Shows(now[n], z[n])
\* what the call returns
ParentSays(z, w, o, r) ==
  /\ o.op = "union" => r.child # <<>> /\ Shows(r.child[1], w[o.id]) /\ r.created = (o.id \notin DOMAIN z)
  /\ o.op = "minus" => IF o.id \in DOMAIN z THEN r.child # <<>> /\ Shows(r.child[1], w[o.id]) ELSE r.child = <<>>
  /\ o.op = "remove" => IF o.id \in DOMAIN z THEN r.child # <<>> /\ Shows(r.child[1], z[o.id]) ELSE r.child = <<>>

(* ---- vending: consumables -> stock. An amount is <<unit, thousandths of it>> or <<>> ---- *)
Category(u) == CASE u \in {"LITER", "CUBIC_METER", "CUP"} -> "volume" [] u = "KILOGRAM" -> "weight" [] u = "METER" -> "length"
                 [] OTHER -> "none"
Convertible(u, w) == u = w \/ (Category(u) # "none" /\ Category(u) = Category(w))
\* thousandths of u as thousandths of w, give or take rounding
Conv(a, u, w) ==
  CASE u = w -> a
    [] u = "LITER" /\ w = "CUBIC_METER" -> a \div 1000
    [] u = "CUBIC_METER" /\ w = "LITER" -> a * 1000
    [] u = "CUP" /\ w = "LITER" -> (a * 2366) \div 10000
    [] u = "LITER" /\ w = "CUP" -> (a * 4227) \div 1000
    [] u = "CUP" /\ w = "CUBIC_METER" -> (a * 2366) \div 10000000
    [] u = "CUBIC_METER" /\ w = "CUP" -> a * 4227
    [] OTHER -> 0
Near(x, y, slack) == Abs(x - y) <= slack
Slack(d, y) == 2 + Abs(d) \div 1000 + Abs(y) \div 100000
\* is the amount b what a becomes when q is added to it (sign 1), or taken from it (sign -1, at least zero)?
Moved(a, b, q, sign) ==
  IF a = <<>> THEN b = <<>>
  ELSE /\ b # <<>> /\ b[1] = a[1]
       /\ LET d == Conv(q[2], q[1], a[1])
              y == IF sign = 1 THEN a[2] + d ELSE IF a[2] - d < 0 THEN 0 ELSE a[2] - d
          IN Near(b[2], y, Slack(d, y)) /\ (sign = -1 => b[2] >= 0)
CanDispense(s, q) == \A a \in {s.used, s.rem} : a = <<>> \/ Convertible(q[1], a[1])
\* w is a state dispensing q of id may lead to from z
Dispensed(z, w, id, q) ==
  /\ DOMAIN w = DOMAIN z /\ \A x \in DOMAIN z \ {id} : w[x] = z[x]
  /\ Moved(z[id].used, w[id].used, q, 1) /\ Moved(z[id].rem, w[id].rem, q, -1)
  /\ w[id].last # <<>> /\ w[id].last[1] = q[1] /\ Near(w[id].last[2], q[2], 1) /\ ~w[id].busy
VendStep(z, w, o, code) ==
  CASE o.op = "dispense" -> IF o.id \in DOMAIN z /\ CanDispense(z[o.id], o.q)
                            THEN code = "OK" /\ Dispensed(z, w, o.id, o.q)
                            ELSE code # "OK" /\ w = z
    [] o.op = "create"   -> IF o.id \in DOMAIN z THEN code = "AlreadyExists" /\ w = z ELSE code = "OK" /\ w = Put(z, o.id, o.x)
    [] o.op = "refill"   -> IF o.id \in DOMAIN z THEN code = "OK" /\ w = Put(z, o.id, o.x) ELSE code # "OK" /\ w = z
    [] o.op = "delete"   -> IF o.id \in DOMAIN z THEN code = "OK" /\ w = Drop(z, o.id) ELSE code # "OK" /\ w = z
\* conversions on their own: back is how far off converting there and back is, in billionths; there is the result
Converted(o, r) ==
  IF Convertible(o.u, o.w)
  THEN r.ok /\ Abs(r.back) <= (IF o.bits = 32 THEN 1000 ELSE 10)
       /\ LET y == Conv(o.a, o.u, o.w) IN Near(r.there, y, 2 + Abs(y) \div 1000)
  ELSE ~r.ok

(* ---- fan speed: [p, i, pct, d] under presets <<[n, pct], ...>>; percentages in halves, presets numbered from 0 ---- *)
Named(ps, n) == {k \in 0..(Len(ps) - 1) : ps[k + 1].n = n}
AtPct(ps, v) == {k \in 0..(Len(ps) - 1) : ps[k + 1].pct = v}
AtPreset(ps, m, k) == [m EXCEPT !.p = ps[k + 1].n, !.i = k, !.pct = ps[k + 1].pct]
ByPct(ps, m) == IF AtPct(ps, m.pct) = {} THEN {[m EXCEPT !.p = "", !.i = -1]} ELSE {AtPreset(ps, m, k) : k \in AtPct(ps, m.pct)}
Clamp(n, lo, hi) == IF n < lo THEN lo ELSE IF n > hi THEN hi ELSE n
\* preset, index and percentage agree
FanConsistent(ps, z) == IF z.p = "" THEN z.i \notin 0..(Len(ps) - 1) \/ Len(ps) = 0
                        ELSE z.i \in 0..(Len(ps) - 1) /\ ps[z.i + 1].n = z.p /\ ps[z.i + 1].pct = z.pct
\* old became m, as written: what follows from it. The preset goes before the index, that before the percentage
\* (all: everything was written, and zero may mean that nothing was asked for)
Derive(ps, z, m, all) ==
  CASE m.p # z.p /\ m.p # "" -> {AtPreset(ps, m, k) : k \in Named(ps, m.p)}
    [] all /\ m.p # "" /\ m.i # z.i -> {AtPreset(ps, m, Clamp(m.i, 0, Len(ps) - 1))} \cup {AtPreset(ps, m, k) : k \in Named(ps, m.p)}
    [] all /\ m.i = 0 /\ m.i # z.i /\ m.pct # z.pct /\ ps # <<>> -> {AtPreset(ps, m, 0)} \cup ByPct(ps, m)
    [] m.i # z.i -> IF ps = <<>> THEN {[m EXCEPT !.p = "", !.pct = v, !.i = k] : v \in {m.pct, z.pct}, k \in {-1, 0, z.i, m.i}}
                    ELSE {AtPreset(ps, m, Clamp(m.i, 0, Len(ps) - 1))}
    [] m.pct # z.pct \/ m.p # z.p -> ByPct(ps, m)
    [] OTHER -> {m}
FanFields == {"preset", "preset_index", "percentage", "direction"}
Written(z, o) ==
  LET on(f) == o.mask = <<>> \/ f \in ToSet(o.mask[1])
      x == o.x
  IN [p |-> IF on("preset") THEN x.p ELSE z.p,
      i |-> IF ~on("preset_index") THEN z.i ELSE IF o.rel THEN z.i + x.i ELSE x.i,
      pct |-> IF ~on("percentage") THEN z.pct ELSE IF o.rel THEN z.pct + x.pct ELSE x.pct,
      d |-> IF on("direction") THEN x.d ELSE z.d]
FanStep(ps, z, o) ==
  CASE o.op = "set" -> IF o.x.p # "" /\ Named(ps, o.x.p) = {} THEN Fails(z, {"InvalidArgument"})
                       ELSE {Ok(y) : y \in Derive(ps, z, Written(z, o), o.mask = <<>>)}
    [] o.op = "reverse" -> {Ok([z EXCEPT !.d = IF z.d = 1 THEN 2 ELSE IF z.d = 2 THEN 1 ELSE z.d])} \cup Fails(z, {"Unimplemented"})

(* ---- modes: mode -> value, of <<[n, vs], ...>> ---- *)
ModeOf(ms, n) == {k \in 1..Len(ms) : ms[k].n = n}
ModeInit(ms) == [n \in {ms[k].n : k \in 1..Len(ms)} |-> ms[CHOOSE k \in ModeOf(ms, n) : TRUE].vs[1]]
Index(vs, v) == {k \in 1..Len(vs) : vs[k] = v}
\* the value of mode n after by steps; it wraps, and a value that is not known makes way for one that is
Steps(ms, z, n, by) ==
  LET vs == ms[CHOOSE k \in ModeOf(ms, n) : TRUE].vs
  IN IF n \notin DOMAIN z \/ Index(vs, IF n \in DOMAIN z THEN z[n] ELSE "") = {} THEN ToSet(vs)
     ELSE LET k == CHOOSE k \in Index(vs, z[n]) : TRUE IN {vs[1 + ((k - 1 + (by % Len(vs))) % Len(vs))]}
ModeIs(ms, z, o, w) ==
  LET known == {n \in DOMAIN o.rel : ModeOf(ms, n) # {}}
      set == DOMAIN o.values
      \* without a mask what is written replaces what was there, unless all of it is relative
      base == IF o.mask = <<>> /\ ~(set = {} /\ DOMAIN o.rel # {}) THEN {} ELSE DOMAIN z
  IN /\ DOMAIN w = base \cup set \cup known
     /\ \A n \in DOMAIN w : IF n \in known THEN w[n] \in Steps(ms, z, n, o.rel[n]) \/ (o.rel[n] = 0 /\ n \in set /\ w[n] = o.values[n])
                            ELSE IF n \in set THEN w[n] = o.values[n] ELSE w[n] = z[n]

(* ---- enter/leave: totals, <<>> or <<n>> ---- *)
Total(t) == IF t = <<>> THEN 0 ELSE t[1]
NextTotal(cur, given, inc) == IF given # <<>> /\ given[1] # Total(cur) THEN given ELSE <<Total(cur) + (IF inc THEN 1 ELSE 0)>>
EnterStep(z, o) ==
  CASE o.op = "event" -> {Ok([e |-> NextTotal(z.e, o.e, o.d = "ENTER"), l |-> NextTotal(z.l, o.l, o.d = "LEAVE")])}
    [] o.op = "reset" -> {Ok([e |-> <<0>>, l |-> <<0>>])}

(* ---- meter: [u, st, en], times as ticks; at are the times the clock showed during the call ---- *)
MeterStep(z, o, at) ==
  CASE o.op = "record" -> {Ok([z EXCEPT !.u = o.u, !.en = <<t>>]) : t \in at}
    [] o.op = "reset"  -> {Ok([u |-> 0, st |-> <<t>>, en |-> <<t>>]) : t \in at}
    [] o.op = "update" -> {Ok([z EXCEPT !.u = o.u])}
MeterConsistent(z) == z.st # <<>> /\ z.en # <<>> /\ z.st[1] <= z.en[1]

(* ---- publications: id -> [b, m, a, rc, why, rt, pt, v]; vers: content -> the version it has ---- *)
Content(id, x) == <<id, x.b, x.m, IF x.a = <<>> THEN "" ELSE x.a[1]>>
Mergeable(p, x, mask) == LET on(f) == mask = <<>> \/ f \in ToSet(mask[1])
                         IN [b |-> IF on("body") THEN x.b ELSE p.b, m |-> IF on("media_type") THEN x.m ELSE p.m,
                             a |-> IF on("audience") THEN x.a ELSE p.a]
\* p published anew at t, as version v
Fresh(y, v, t) == [b |-> y.b, m |-> y.m, a |-> y.a, rc |-> "NO_SIGNAL", why |-> "", rt |-> <<>>, pt |-> <<t>>, v |-> v]
\* v is the version of this content, and of no other
Versioned(vers, c, v) == v # "" /\ IF c \in DOMAIN vers THEN vers[c] = v ELSE \A d \in DOMAIN vers : vers[d] # v
Acked(p) == p.rc \in {"ACCEPTED", "REJECTED"}
PubStep(z, o, id, v, at) ==
  LET has == o.id \in DOMAIN z IN
  CASE o.op = "create" -> IF o.id # "" /\ has THEN Fails(z, {"AlreadyExists"})
                          ELSE IF id \in DOMAIN z \/ id = "" \/ (o.id # "" /\ id # o.id) THEN {}
                          ELSE {Ok(Put(z, id, Fresh(o.x, v, t))) : t \in at}
    [] o.id = "" -> Fails(z, {"InvalidArgument"})
    [] o.op = "update" -> IF ~has THEN Fails(z, {"NotFound"})
                          ELSE IF o.v # "" /\ o.v # z[o.id].v THEN Fails(z, {"FailedPrecondition", "Aborted"})
                          ELSE {Ok(Put(z, o.id, Fresh(Mergeable(z[o.id], o.x, o.mask), v, t))) : t \in at}
    [] o.op = "delete" -> IF ~has THEN (IF o.allow THEN {Ok(z)} ELSE Fails(z, {"NotFound"}))
                          ELSE IF o.v # "" /\ o.v # z[o.id].v THEN Fails(z, {"FailedPrecondition", "Aborted"})
                          ELSE {Ok(Drop(z, o.id))}
    [] o.op = "ack" -> IF o.v = "" THEN Fails(z, {"InvalidArgument"})
                       ELSE IF ~has THEN Fails(z, {"NotFound"})
                       ELSE IF o.v # z[o.id].v THEN Fails(z, {"FailedPrecondition", "Aborted"})
                       ELSE IF Acked(z[o.id]) THEN (IF o.allow THEN {Ok(z)} ELSE Fails(z, {"FailedPrecondition", "AlreadyExists"}))
                       ELSE {Ok([z EXCEPT ![o.id].rc = (IF o.rc = "" THEN "ACCEPTED" ELSE o.rc), ![o.id].why = o.why, ![o.id].rt = <<t>>]) : t \in at}
                            \cup (IF o.rc = "NO_SIGNAL" THEN Fails(z, {"InvalidArgument"})
                                     \cup {Ok([z EXCEPT ![o.id].why = o.why, ![o.id].rt = y]) : y \in {<<>>} \cup {<<t>> : t \in at}}
                                  ELSE {})
NewVersions(vers, o, id, z, w, code) ==
  IF code = "OK" /\ o.op \in {"create", "update"} THEN Put(vers, Content(id, w[id]), w[id].v) ELSE vers
=============================================================================
