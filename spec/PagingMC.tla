------------------------------ MODULE PagingMC ------------------------------
(* A server whose token is the key of the last item listed, found again by searching the sorted keys, is one that pages
   as the caller expects, for every set of keys and every choice of sizes, also while other callers page.  Key 0 stands
   for the empty key: with ByKey the server tells the first page by the key being empty, and is wrong (PagingBad.cfg). *)
EXTENDS Paging, TLC
CONSTANTS Keys, Sizes, ByKey
VARIABLES items, tok, got, sizes, done
vars == <<items, tok, got, sizes, done>>
\* tokens: <<>> none, <<k>> the key
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})
Init == items \in {Sorted(S) : S \in SUBSET Keys} /\ tok = <<>> /\ got = <<>> /\ sizes = <<>> /\ done = FALSE
IsFirst == tok = <<>> \/ (ByKey /\ tok = <<0>>)
Skip == IF IsFirst THEN 0 ELSE Cardinality({i \in DOMAIN items : items[i] <= tok[1]})
Get(z) == LET n == Len(items)
              up == Skip + Cap(z)
              hi == Min(up, n)
          IN /\ ~done
             /\ got' = got \o SubSeq(items, Skip + 1, hi)
             /\ done' = (up > n)
             /\ tok' = IF up > n THEN <<>> ELSE <<items[hi]>>
             /\ sizes' = Append(sizes, hi - Skip)
             /\ UNCHANGED items
Next == \E z \in Sizes : Get(z)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* (bounds what a wrong server can do)
Short == Len(sizes) <= Cardinality(Keys) + 2
Once == Len(got) <= Len(items) /\ got = SubSeq(items, 1, Len(got))
All == done => got = items
NoLonger == \A i \in DOMAIN sizes : sizes[i] <= Max
Bounded == Len(sizes) <= Len(items) + 1
Ends == <>done
\* and as the caller sees it
Contract == [][\E z \in Sizes : LET p == Len(got) IN
                 /\ got' = got \o Page(items, p, z)
                 /\ Next1(<<>>, IF done' THEN "" ELSE "t", p, Len(got'), Len(items))]_vars
=============================================================================
