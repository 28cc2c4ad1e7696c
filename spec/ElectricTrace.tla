---------------------------- MODULE ElectricTrace ----------------------------
(* Histories of operations on the modes of an electric model, one after another or overlapping, through the model and
   through its servers, with what it says of itself between them and what it tells its subscribers (C19). *)
EXTENDS Electric, TraceLib
ASSUME InitRegs
VARIABLES z, pend, fold, afold, s, l
vars == <<z, pend, fold, afold, s, l>>
Evs == Sessions[s].ev
Ev == Evs[l]
Cfg == Sessions[s].cfg
Is(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Nothing == [x \in {} |-> Blank]
Init == /\ s \in 1..NSessions /\ l = 1 /\ pend = [x \in {} |-> 0]
        /\ z = [modes |-> Sessions[s].cfg.modes, aid |-> Sessions[s].cfg.aid, act |-> Sessions[s].cfg.act,
                chg |-> Sessions[s].cfg.aid \in DOMAIN Sessions[s].cfg.modes]
        /\ fold = Nothing /\ afold = <<>>
Streams == UNCHANGED <<fold, afold>>
X(r) == [n |-> r.n, v |-> r.v, st |-> r.st]
\* r is what the call o returned: [code, id, ret]
Outcomes(r, o) == {u.z : u \in {w \in Effect(z, o, r.id, r.t0 .. r.t1) :
                     /\ r.code = w.code
                     /\ r.code = "OK" /\ r.ret # <<>> => r.id = w.id /\ X(r.ret[1]) = w.mode}}
\* the servers want an id; the model was not asked then
NoId(r, o) == r.code = "InvalidArgument" /\ o.door = "server"
              /\ IF o.op \in {"update", "delete", "change"} THEN o.id = "" ELSE o.op = "create" /\ o.id # ""
Op == /\ Is("op") /\ Streams /\ UNCHANGED pend
      /\ IF NoId(Ev.r, Ev.o) THEN UNCHANGED z ELSE \E y \in Outcomes(Ev.r, Ev.o) : z' = y
\* what it says of itself
Says(e) == /\ e.modes = z.modes /\ e.aid = z.aid /\ X(e.act) = z.act
           /\ IF e.normal = <<>> THEN Normals(z) = {} ELSE Normals(z) = {e.normal[1]}
           /\ OneNormal(z) /\ ActiveExists(z)
Read == Is("read") /\ Streams /\ UNCHANGED <<z, pend>> /\ Says(Ev)
\* what subscribers are told
Pm == /\ Is("pm") /\ UNCHANGED <<z, pend, afold>>
      /\ fold' = IF Ev.new = <<>> THEN [i \in DOMAIN fold \ {Ev.id} |-> fold[i]]
                 ELSE [i \in DOMAIN fold \cup {Ev.id} |-> IF i = Ev.id THEN X(Ev.new[1]) ELSE fold[i]]
      /\ IF Cfg.seq THEN Cardinality({i \in DOMAIN fold' : fold'[i].n}) <= 1 ELSE TRUE
Pa == /\ Is("pa") /\ UNCHANGED <<z, pend, fold>>
      /\ IF Cfg.seq /\ z.chg THEN Ev.id \in Ids(z) ELSE TRUE
      /\ afold' = <<[id |-> Ev.id, x |-> X(Ev.x)]>>
Quiet == /\ Is("quiet") /\ UNCHANGED <<z, pend, fold, afold>>
         /\ fold = z.modes /\ afold = <<[id |-> z.aid, x |-> z.act]>>
----
\* calls that overlap take effect, each at once, somewhere between their beginning and their end
Inv == /\ Is("inv") /\ Streams /\ UNCHANGED z
       /\ pend' = [x \in DOMAIN pend \cup {Ev.p} |-> IF x = Ev.p THEN [at |-> l, lin |-> FALSE] ELSE pend[x]]
Ret == /\ Is("ret") /\ Ev.p \in DOMAIN pend /\ pend[Ev.p].lin /\ Streams /\ UNCHANGED z
       /\ pend' = [x \in DOMAIN pend \ {Ev.p} |-> pend[x]]
RetOf(p) == Evs[Evs[pend[p].at].ret]
Lin(p) == /\ l <= Len(Evs) /\ Ev.e = "ret" /\ ~pend[p].lin
          /\ LET o == Evs[pend[p].at].o
                 r == RetOf(p).r
             IN IF o.op = "modes" THEN r.modes = z.modes /\ z' = z
                ELSE IF o.op = "active" THEN r.aid = z.aid /\ X(r.act) = z.act /\ z' = z
                ELSE IF o.op = "normal" THEN (IF r.normal = <<>> THEN Normals(z) = {} ELSE r.normal[1] \in Normals(z)) /\ z' = z
                ELSE IF o.op = "find" THEN r.found = (o.id \in Ids(z)) /\ z' = z
                ELSE IF NoId(r, o) THEN z' = z
                ELSE \E y \in Outcomes(r, o) : z' = y
          /\ pend' = [pend EXCEPT ![p].lin = TRUE]
          /\ Streams /\ UNCHANGED <<s, l>>
Next == Op \/ Read \/ Pm \/ Pa \/ Quiet \/ Inv \/ Ret \/ \E p \in DOMAIN pend : Lin(p)
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
==============================================================================
