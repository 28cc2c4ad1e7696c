------------------------------ MODULE IsolationMC ------------------------------
(* Why copying in and never writing in place isolates (C07). Messages are addresses in a heap; a message refers to one
   nested message. A write copies the caller's message onto a copy of what is stored and stores that; reads, results and
   events hand out what is stored, which is never written again. Each Flaw takes one of the rules away; the invariants
   fail for every one of them (the checks of the flawed models expect that). *)
EXTENDS Isolation, FiniteSets, TLC
CONSTANTS Addr, Content, MaxOps, Flaw
\* Flaw: "none", "alias" (the caller's message is stored), "shallow" (its nested message is), "inplace" (a write changes
\* the stored message), "oldnested" (the new message's nested message is the old one's, and is written), "readmut" (a read
\* tidies what it hands out)
VARIABLES heap, store, abs, mine, got, seen, n
vars == <<heap, store, abs, mine, got, seen, n>>
\* heap: address -> [v, sub] with sub another address or 0; store: address; abs: what the store should hold <<v, subv>>
Free == {a \in Addr : heap[a].v = "free"}
View(h, a) == <<h[a].v, h[h[a].sub].v>>
Init == \E a, b \in Addr : /\ a < b /\ a = 1 /\ b = 2
                           /\ heap = [x \in Addr |-> IF x = a THEN [v |-> "x", sub |-> b] ELSE IF x = b THEN [v |-> "x", sub |-> b] ELSE [v |-> "free", sub |-> x]]
                           /\ store = a /\ abs = <<"x", "x">> /\ mine = <<>> /\ got = <<>> /\ seen = <<>> /\ n = 0
Fresh(k) == CHOOSE p \in [1..k -> Free] : Cardinality({p[i] : i \in 1..k}) = k /\ \A i, j \in 1..k : i < j => p[i] < p[j]
\* a caller writes a message: it's theirs still
Write(v, w) ==
  LET f == Fresh(4)
      h1 == [heap EXCEPT ![f[1]] = [v |-> v, sub |-> f[2]], ![f[2]] = [v |-> w, sub |-> f[2]]]  \* the caller's
      h2 == CASE Flaw = "alias" -> h1
              [] Flaw = "shallow" -> [h1 EXCEPT ![f[3]] = [v |-> v, sub |-> f[2]]]
              [] Flaw = "inplace" -> [h1 EXCEPT ![store].v = v, ![h1[store].sub].v = w]
              [] Flaw = "oldnested" -> [h1 EXCEPT ![f[3]] = [v |-> v, sub |-> h1[store].sub], ![h1[store].sub].v = w]
              [] OTHER -> [h1 EXCEPT ![f[3]] = [v |-> v, sub |-> f[4]], ![f[4]] = [v |-> w, sub |-> f[4]]]
      st == CASE Flaw = "alias" -> f[1] [] Flaw = "inplace" -> store [] OTHER -> f[3]
  IN /\ Cardinality(Free) >= 4 /\ n < MaxOps /\ n' = n + 1
     /\ heap' = h2 /\ store' = st /\ abs' = <<v, w>>
     /\ mine' = Append(mine, f[1])
     /\ got' = got /\ seen' = seen
Read == /\ n < MaxOps /\ n' = n + 1
        /\ heap' = IF Flaw = "readmut" THEN [heap EXCEPT ![store].v = "x"] ELSE heap
        /\ got' = Append(got, store) /\ seen' = Append(seen, View(heap', store))
        /\ UNCHANGED <<store, abs, mine>>
Modify(i, v) == /\ n < MaxOps /\ n' = n + 1
                /\ heap' = [heap EXCEPT ![mine[i]].v = v, ![heap[mine[i]].sub].v = v]
                /\ UNCHANGED <<store, abs, mine, got, seen>>
Next == \/ \E v, w \in Content : Write(v, w)
        \/ Read
        \/ \E i \in DOMAIN mine, v \in Content : Modify(i, v)
Spec == Init /\ [][Next]_vars
\* what was obtained stays what it was
Snapshots == Kept(seen, [i \in DOMAIN got |-> View(heap, got[i])])
\* the store holds what was written, whatever callers do with their messages, and whatever is read
Stored == View(heap, store) = abs
Inv == Snapshots /\ Stored
=============================================================================
