-------------------------------- MODULE TraitsMC --------------------------------
(* The rules of one model (Kind) from its initial states, for every operation of a small vocabulary; the invariants are
   what C20 says stays consistent. With Emit, a path to every state and every operation there is printed for replay. *)
EXTENDS Traits, TLC, Json
CONSTANTS Kind, Emit
VARIABLES z, now, vers, h
vars == <<z, now, vers, h>>
View == <<z, now, IF Kind = "pub" THEN vers ELSE <<>>>>
None == [x \in {} |-> 0]
Times == Kind \in {"meter"}
Presets == <<[n |-> "off", pct |-> 0], [n |-> "low", pct |-> 30], [n |-> "full", pct |-> 200]>>
Modes == <<[n |-> "temp", vs |-> <<"cold", "warm", "hot">>], [n |-> "spin", vs |-> <<"slow", "fast">>]>>
Qs == {<<"LITER", 500>>, <<"LITER", 2000>>, <<"CUBIC_METER", 1>>, <<"KILOGRAM", 500>>}
Amts == {<<>>, <<"LITER", 2000>>, <<"CUBIC_METER", 2>>}
Stocks == {[used |-> u, rem |-> r, last |-> <<>>, busy |-> FALSE] : u \in Amts, r \in Amts}
X(p, i, v, d) == [p |-> p, i |-> i, pct |-> v, d |-> d]
FanXs == {X("", 0, 0, 0), X("low", 0, 0, 0), X("full", 2, 0, 0), X("", 1, 0, 0), X("", -1, 0, 0), X("", 5, 0, 0), X("", 0, 30, 0),
          X("", 0, 40, 2), X("", 0, -40, 0), X("off", 1, 30, 0), X("", 1, 200, 0), X("nope", 0, 0, 0)}
FanMasks == {<<>>, <<<<"percentage">>>>, <<<<"preset">>>>, <<<<"preset_index">>>>, <<<<"preset", "preset_index", "percentage", "direction">>>>}
PubX == {[b |-> b, m |-> m, a |-> a] : b \in {"", "x", "y"}, m \in {"", "t"}, a \in {<<>>, <<"au">>}}
Ops == CASE Kind = "parent" -> [op : {"add"}, id : {"c", "d"}, t : {<<>>, <<1>>, <<0, 2>>}]
                               \cup [op : {"union", "minus"}, id : {"c", "d"}, t : {<<>>, <<0>>, <<1>>, <<2>>, <<2, 0>>, <<1, 1>>, <<0, 1, 2>>}]
                               \cup [op : {"remove"}, id : {"c", "d"}, allow : BOOLEAN]
         [] Kind = "vend" -> [op : {"dispense"}, id : {"c", "d"}, q : Qs] \cup [op : {"create"}, id : {"c"}, x : Stocks] \cup [op : {"delete"}, id : {"c"}]
         [] Kind = "fan" -> [op : {"set"}, x : FanXs, mask : FanMasks, rel : BOOLEAN] \cup [op : {"reverse"}]
         [] Kind = "mode" -> {o \in [op : {"set"}, values : {None, [temp |-> "hot"], [spin |-> "odd"], [other |-> "o"], [temp |-> "warm", spin |-> "fast"]},
                              rel : {None, [temp |-> 1], [temp |-> -1], [spin |-> 3, temp |-> -4], [other |-> 1], [spin |-> -2]},
                              mask : {<<>>, <<<<"values">>>>}] : DOMAIN o.values # {} \/ DOMAIN o.rel # {}}
         [] Kind = "enter" -> [op : {"event"}, d : {"ENTER", "LEAVE", "DIRECTION_UNSPECIFIED"}, e : {<<>>, <<0>>, <<1>>, <<3>>}, l : {<<>>, <<0>>, <<1>>}]
                              \cup [op : {"reset"}]
         [] Kind = "meter" -> [op : {"record", "update"}, u : {0, 1, 2}] \cup [op : {"reset"}]
         [] Kind = "pub" -> [op : {"create"}, id : {"p"}, x : PubX]
                            \cup [op : {"update"}, id : {"p"}, x : PubX, mask : {<<>>, <<<<"body">>>>, <<<<"audience", "media_type">>>>}, ver : {"", "cur", "bad"}]
                            \cup [op : {"delete"}, id : {"p"}, allow : BOOLEAN, ver : {"", "cur", "bad"}]
                            \cup [op : {"ack"}, id : {"p"}, ver : {"", "cur", "bad"}, rc : {"", "ACCEPTED", "REJECTED", "NO_SIGNAL"}, why : {"", "no"}, allow : BOOLEAN]
Init == /\ now = 1 /\ vers = None /\ h = <<>>
        /\ z \in CASE Kind = "parent" -> {None} [] Kind = "vend" -> {None}
                   [] Kind = "fan" -> {[p |-> "off", i |-> 0, pct |-> 0, d |-> 1]}
                   [] Kind = "mode" -> {ModeInit(Modes)}
                   [] Kind = "enter" -> {[e |-> <<0>>, l |-> <<0>>]}
                   [] Kind = "meter" -> {[u |-> 0, st |-> <<1>>, en |-> <<1>>]}
                   [] Kind = "pub" -> {None}
\* the versions the specification mints tell contents apart
Mint(c) == ToString(c)
WithVersion(o) == IF "ver" \notin DOMAIN o THEN o
                  ELSE [x \in DOMAIN o \cup {"v"} |-> IF x # "v" THEN o[x] ELSE
                          IF o.ver = "cur" /\ o.id \in DOMAIN z THEN z[o.id].v ELSE o.ver]
PubNext(o) == LET id == o.id
                  y == CASE o.op = "create" -> o.x
                         [] o.op = "update" /\ id \in DOMAIN z -> Mergeable(z[id], o.x, o.mask)
                         [] OTHER -> [b |-> "", m |-> "", a |-> <<>>]
              IN PubStep(z, WithVersion(o), id, Mint(Content(id, y)), {now})
\* amounts the specification's dispensing leads to: the middle of what is allowed
Move(a, q, sign) == IF a = <<>> THEN a ELSE LET y == a[2] + sign * Conv(q[2], q[1], a[1]) IN <<a[1], IF y < 0 THEN 0 ELSE y>>
VendTo(o) == CASE o.op = "dispense" /\ o.id \in DOMAIN z /\ CanDispense(z[o.id], o.q) ->
                    [code |-> "OK", z |-> Put(z, o.id, [used |-> Move(z[o.id].used, o.q, 1), rem |-> Move(z[o.id].rem, o.q, -1), last |-> o.q, busy |-> FALSE])]
               [] o.op = "create" /\ o.id \notin DOMAIN z -> Ok(Put(z, o.id, o.x))
               [] o.op = "create" -> [code |-> "AlreadyExists", z |-> z]
               [] o.op = "delete" /\ o.id \in DOMAIN z -> Ok(Drop(z, o.id))
               [] OTHER -> [code |-> "Unknown", z |-> z]
ModeTo(o) == LET dom == DOMAIN z \cup DOMAIN o.values \cup {n \in DOMAIN o.rel : ModeOf(Modes, n) # {}}
                 all == {"cold", "warm", "hot", "slow", "fast", "odd", "o"}
             IN {Ok(w) : w \in {w \in [dom -> all] : ModeIs(Modes, z, o, w)}}
Outcomes(o) == CASE Kind = "parent" -> ParentStep(z, o) [] Kind = "vend" -> {VendTo(o)} [] Kind = "fan" -> FanStep(Presets, z, o)
                 [] Kind = "mode" -> ModeTo(o) [] Kind = "enter" -> EnterStep(z, o) [] Kind = "meter" -> MeterStep(z, o, {now})
                 [] Kind = "pub" -> PubNext(o)
Next == \E o \in Ops : \E r \in Outcomes(o) :
          /\ z' = r.z /\ now' = (IF Times /\ now < 4 THEN now + 1 ELSE now) /\ h' = (IF Emit THEN Append(h, o) ELSE h)
          /\ vers' = (IF Kind = "pub" THEN NewVersions(vers, o, o.id, z, r.z, r.code) ELSE vers)
Spec == Init /\ [][Next]_vars
Bound == CASE Kind = "enter" -> Total(z.e) < 5 /\ Total(z.l) < 5
           [] Kind = "fan" -> Abs(z.pct) < 200 \/ z.pct = 200
           [] Kind = "vend" -> TLCGet("level") <= 4
           [] Kind = "pub" -> TLCGet("level") <= 3 /\ Cardinality(DOMAIN vers) <= 2
           [] OTHER -> TRUE
EmitPath == Emit => PrintT("SCRIPT " \o ToJson([kind |-> Kind, ops |-> h']))
----
Consistent == CASE Kind = "fan" -> FanConsistent(Presets, z)
                [] Kind = "meter" -> MeterConsistent(z)
                [] Kind = "mode" -> \A n \in {Modes[k].n : k \in 1..Len(Modes)} : \A by \in -7..7 : \A v \in Steps(Modes, z, n, by) :
                                       LET back == Steps(Modes, Put(z, n, v), n, -by) IN IF n \in DOMAIN z /\ Index(Modes[CHOOSE k \in ModeOf(Modes, n) : TRUE].vs, z[n]) # {} THEN back = {z[n]} ELSE Cardinality(back) = 1
                [] Kind = "enter" -> z.e # <<>> /\ z.l # <<>> /\ z.e[1] >= 0 /\ z.l[1] >= 0
                [] Kind = "pub" -> \A p \in DOMAIN z : /\ z[p].v = vers[Content(p, z[p])]
                                                       /\ Acked(z[p]) => z[p].rt # <<>>
                [] Kind = "vend" -> \A c \in DOMAIN z : z[c].rem # <<>> => z[c].rem[2] >= 0
                [] OTHER -> TRUE
\* every outcome the specification leads to is one it accepts of the implementation (vending is stated both ways)
Accepted == Kind = "vend" => \A o \in Ops : VendStep(z, VendTo(o).z, o, VendTo(o).code)
\* an acknowledgement lasts until the publication is published again
AckLasts == [][Kind = "pub" => \A p \in DOMAIN z \cap DOMAIN z' : Acked(z[p]) => Acked(z'[p]) \/ z'[p].rc = "NO_SIGNAL"]_vars
=================================================================================
