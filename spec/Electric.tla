------------------------------- MODULE Electric -------------------------------
(* The modes of an electric device (C19): which there are, which of them is the normal one, and which is active.
   A mode is [n: is it normal, v: what else it says, st: when it started, <<>> if it does not say].
   state: [modes |-> id -> mode, aid |-> the active id, act |-> the active mode, as it was made active,
   chg |-> has the active mode been changed yet] *)
EXTENDS Integers, Sequences, FiniteSets
Ids(z) == DOMAIN z.modes
Normals(z) == {i \in Ids(z) : z.modes[i].n}
\* an update takes from the new mode what the mask names (everything, without one)
Merge(old, new, mask) ==
  IF mask = <<>> THEN new
  ELSE LET has(f) == \E i \in DOMAIN mask[1] : mask[1][i] = f
       IN [n |-> IF has("normal") THEN new.n ELSE old.n,
           v |-> IF has("title") THEN new.v ELSE old.v,
           st |-> IF has("start_time") THEN new.st ELSE old.st]
Blank == [n |-> FALSE, v |-> 0, st |-> <<>>]
Put(z, i, x) == [z EXCEPT !.modes = [j \in Ids(z) \cup {i} |-> IF j = i THEN x ELSE z.modes[j]]]
Drop(z, i) == [z EXCEPT !.modes = [j \in Ids(z) \ {i} |-> z.modes[j]]]
Activate(z, i, x) == [z EXCEPT !.aid = i, !.act = x, !.chg = TRUE]
Clashes(z, i, x) == x.n /\ Normals(z) \ {i} # {}
\* outcomes [code, z, id, mode]: what is returned, and what it leaves; id and mode are what was created, updated or
\* made active.  times are those the model's clock may show.
Fail(z, codes) == {[code |-> k, z |-> z, id |-> "", mode |-> Blank] : k \in codes}
Done(z, i, x) == {[code |-> "OK", z |-> z, id |-> i, mode |-> x]}
ChangeTo(z, i, times) ==
  IF i \notin Ids(z) THEN Fail(z, {"NotFound"})
  ELSE LET x == z.modes[i]
           start == IF i # z.aid THEN {<<t>> : t \in times}
                    ELSE {x.st, z.act.st} \cup {<<t>> : t \in times}    \* (active already)
       IN UNION {Done(Activate(z, i, [x EXCEPT !.st = s]), i, [x EXCEPT !.st = s]) : s \in start}
Add(z, i, x) == IF i \in Ids(z) \/ Clashes(z, i, x) THEN Fail(z, {"AlreadyExists"}) ELSE Done(Put(z, i, x), i, x)
Update(z, i, x, mask, create) ==
  IF i \notin Ids(z) /\ ~create THEN Fail(z, {"NotFound"} \cup IF Clashes(z, i, Merge(Blank, x, mask)) THEN {"AlreadyExists"} ELSE {})
  ELSE LET y == Merge(IF i \in Ids(z) THEN z.modes[i] ELSE Blank, x, mask)
       IN IF Clashes(z, i, y) THEN Fail(z, {"AlreadyExists", "FailedPrecondition", "InvalidArgument"})
          ELSE Done(Put(z, i, y), i, y)
Delete(z, i, allow) ==
  IF i \notin Ids(z) THEN IF allow THEN Done(z, "", Blank) ELSE Fail(z, {"NotFound"})
  ELSE IF i = z.aid THEN Fail(z, {"FailedPrecondition"}) ELSE Done(Drop(z, i), "", Blank)
SetActive(z, i, x) == IF i \notin Ids(z) THEN Fail(z, {"NotFound"}) ELSE Done(Activate(z, i, x), i, x)
Clear(z, times) == IF Normals(z) = {} THEN Fail(z, {"NotFound"}) ELSE UNION {ChangeTo(z, i, times) : i \in Normals(z)}
\* o: the operation; new is the id that a created mode gets
Effect(z, o, new, times) ==
  CASE o.op = "create" -> IF new \in Ids(z) THEN {} ELSE Add(z, new, o.x)
    [] o.op = "add"    -> Add(z, o.id, o.x)
    [] o.op = "update" -> Update(z, o.id, o.x, o.mask, o.create)
    [] o.op = "delete" -> Delete(z, o.id, o.allow)
    [] o.op = "set"    -> SetActive(z, o.id, o.x)
    [] o.op = "change" -> ChangeTo(z, o.id, times)
    [] o.op = "clear"  -> Clear(z, times)
----
OneNormal(z) == Cardinality(Normals(z)) <= 1
ActiveExists(z) == z.chg => z.aid \in Ids(z)
===============================================================================
