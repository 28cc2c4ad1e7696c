-------------------------------- MODULE Compare --------------------------------
(* Equality of messages, and comparers with tolerances (C16).

   A message is [k |-> "msg", d |-> descriptor, n |-> its short name, ok |-> valid, f |-> field -> value,
   u |-> field number -> bytes]; only populated fields are in f.  A field is a scalar [k |-> "s", v |-> text], a float
   [k |-> "f", c |-> class, v |-> text, n |-> in 64ths], a message, a list [k |-> "list", v |-> values] or a map
   [k |-> "map", v |-> key -> value].  Timestamps and durations carry their exact value t in nanoseconds, as
   [neg |-> sign, l |-> limbs base 10^5, least significant first].

   Where a statement leaves room, operators give the set of possible answers. *)
EXTENDS Integers, Sequences, FiniteSets

---------------------------------------------------------------------------
(* Exact arithmetic on limbs *)
Base == 100000
NL == 7
Limb(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
Zero == [i \in 1..NL |-> 0]
Norm(a) == [i \in 1..NL |-> Limb(a, i)]
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a, b) == CmpFrom(a, b, NL)
\* digits x (any size) made limbs, from the i-th on with carry c
RECURSIVE Carry(_, _, _)
Carry(x, i, c) == IF i > NL THEN <<>>
                  ELSE LET t == x[i] + c
                           d == t % Base
                       IN <<d>> \o Carry(x, i + 1, (t - d) \div Base)
Plus(a, b) == Carry([i \in 1..NL |-> a[i] + b[i]], 1, 0)
Minus(a, b) == Carry([i \in 1..NL |-> a[i] - b[i]], 1, 0)   \* a >= b
Times(a, n) == Carry([i \in 1..NL |-> a[i] * n], 1, 0)      \* n < 20000
Dist(x, y) == IF x.neg = y.neg THEN IF Cmp(Norm(x.l), Norm(y.l)) >= 0 THEN Minus(Norm(x.l), Norm(y.l))
                                    ELSE Minus(Norm(y.l), Norm(x.l))
              ELSE Plus(Norm(x.l), Norm(y.l))
MinL(a, b) == IF Cmp(a, b) <= 0 THEN a ELSE b
MaxL(a, b) == IF Cmp(a, b) <= 0 THEN b ELSE a

---------------------------------------------------------------------------
(* Value comparers: na (not its kind), eq, ne *)
Abs(n) == IF n < 0 THEN -n ELSE n
Min(a, b) == IF a < b THEN a ELSE b
FloatV(c, x, y) ==
  IF x.k # "f" \/ y.k # "f" THEN {"na"}
  ELSE IF x.c = "nan" \/ y.c = "nan" \/ x.c = "inf" \/ y.c = "inf" THEN {IF x.c = y.c /\ x.v = y.v THEN "eq" ELSE "ne"}
  ELSE IF x.c = "odd" \/ y.c = "odd" THEN IF x.v = y.v THEN {"eq"} ELSE {"eq", "ne"}
  ELSE LET d == Abs(x.n - y.n)
       IN {IF d <= c.m \/ d * c.den <= c.num * Min(Abs(x.n), Abs(y.n)) THEN "eq" ELSE "ne"}
IsA(x, d) == x.k = "msg" /\ x.d = d
Kind(c) == IF c.t = "time" THEN "google.protobuf.Timestamp" ELSE "google.protobuf.Duration"
TimeV(c, x, y) ==
  IF ~IsA(x, Kind(c)) /\ ~IsA(y, Kind(c)) THEN {"na"}
  ELSE IF ~(IsA(x, Kind(c)) /\ IsA(y, Kind(c))) THEN {"ne"}
  ELSE IF ~x.ok \/ ~y.ok THEN {IF x.ok = y.ok THEN "eq" ELSE "ne"}
  ELSE CASE c.t \in {"time", "dur"} -> {IF Cmp(Dist(x.t, y.t), Norm(c.d.l)) <= 0 THEN "eq" ELSE "ne"}
         [] c.t = "durp" ->
              \* percent of what: the smaller, the larger, or something in between
              LET d == Times(Dist(x.t, y.t), 100)
                  lo == Times(MinL(Norm(x.t.l), Norm(y.t.l)), c.p)
                  hi == Times(MaxL(Norm(x.t.l), Norm(y.t.l)), c.p)
              IN IF Cmp(d, Zero) = 0 \/ Cmp(d, lo) < 0 THEN {"eq"} ELSE IF Cmp(d, hi) > 0 THEN {"ne"} ELSE {"eq", "ne"}
AndV(a, b) == IF a = "ne" \/ b = "ne" THEN "ne" ELSE IF a = "eq" \/ b = "eq" THEN "eq" ELSE "na"
OrV(a, b) == IF a = "eq" \/ b = "eq" THEN "eq" ELSE IF a = "ne" \/ b = "ne" THEN "ne" ELSE "na"
RECURSIVE V(_, _, _), FoldV(_, _, _, _, _)
FoldV(op, cs, i, x, y) == IF i > Len(cs) THEN {"na"}
  ELSE LET a == V(cs[i], x, y)
           b == FoldV(op, cs, i + 1, x, y)
       IN {IF op = "and" THEN AndV(p, q) ELSE OrV(p, q) : p \in a, q \in b}
V(c, x, y) == CASE c.t = "float" -> FloatV(c, x, y)
                [] c.t \in {"time", "dur", "durp"} -> TimeV(c, x, y)
                [] c.t \in {"and", "or"} -> FoldV(c.t, c.cs, 1, x, y)

---------------------------------------------------------------------------
(* Messages *)
All(S) == (IF \A b \in S : TRUE \in b THEN {TRUE} ELSE {}) \cup (IF \E b \in S : FALSE \in b THEN {FALSE} ELSE {})
Some(S) == (IF \E b \in S : TRUE \in b THEN {TRUE} ELSE {}) \cup (IF \A b \in S : FALSE \in b THEN {FALSE} ELSE {})
Ignored(m) == IF m.n = "Change" THEN {"change_time"} ELSE {}
RECURSIVE EqMsg(_, _, _), EqVal(_, _, _), EqField(_, _, _)
EqVal(cs, x, y) ==
  LET v == V([t |-> "and", cs |-> cs], x, y)
  IN (IF "eq" \in v THEN {TRUE} ELSE {}) \cup (IF "ne" \in v THEN {FALSE} ELSE {}) \cup
     (IF "na" \in v THEN CASE x.k = "s" -> {x.v = y.v}
                           [] x.k = "f" -> {x.c = y.c /\ x.v = y.v}
                           [] x.k = "msg" -> EqMsg(cs, x, y)
      ELSE {})
EqField(cs, x, y) ==
  CASE x.k = "list" -> IF Len(x.v) # Len(y.v) THEN {FALSE} ELSE All({EqVal(cs, x.v[i], y.v[i]) : i \in DOMAIN x.v})
    [] x.k = "map" -> IF DOMAIN x.v # DOMAIN y.v THEN {FALSE} ELSE All({EqVal(cs, x.v[i], y.v[i]) : i \in DOMAIN x.v})
    [] OTHER -> EqVal(cs, x, y)
EqMsg(cs, x, y) ==
  IF x.d # y.d THEN {FALSE}
  ELSE LET fx == DOMAIN x.f \ Ignored(x)
           fy == DOMAIN y.f \ Ignored(y)
       IN IF fx # fy \/ x.u # y.u THEN {FALSE} ELSE All({EqField(cs, x.f[i], y.f[i]) : i \in fx})
EqTop(cs, x, y) ==
  IF x.k = "nil" \/ y.k = "nil" THEN {x.k = y.k} ELSE IF x.ok # y.ok THEN {FALSE} ELSE EqMsg(cs, x, y)
RECURSIVE M(_, _, _)
M(c, x, y) == CASE c.t = "equal" -> EqTop(c.cs, x, y)
                [] c.t = "mand" -> All({M(c.ms[i], x, y) : i \in DOMAIN c.ms})
                [] c.t = "mor" -> Some({M(c.ms[i], x, y) : i \in DOMAIN c.ms})
=============================================================================
