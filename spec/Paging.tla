-------------------------------- MODULE Paging --------------------------------
(* Listing a collection page by page (C15).  What the caller may rely on: a page is what follows, in the listing's
   order, what the token stands for, as much of it as was asked for; the token with it stands for what follows that. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Default, Max
Min(a, b) == IF a < b THEN a ELSE b
Cap(z) == IF z = 0 THEN Default ELSE Min(z, Max)
\* of n items, p of which were listed, a page of size z has
Count(n, p, z) == Min(Cap(z), n - p)
Page(items, p, z) == SubSeq(items, p + 1, p + Count(Len(items), p, z))
\* toks: token -> how many items come before what it stands for; "" is the start
Known(toks, t) == t = "" \/ t \in DOMAIN toks
At(toks, t) == IF t = "" THEN 0 ELSE toks[t]
\* next may be the token of a page that ends after q of n items
Next1(toks, next, p, q, n) ==
  IF next = "" THEN q = n
  ELSE /\ q > p                          \* (no pages without end)
       /\ next \in DOMAIN toks => toks[next] = q
Learn(toks, next, q) == IF next = "" THEN toks ELSE [t \in DOMAIN toks \cup {next} |-> IF t = next THEN q ELSE toks[t]]
===============================================================================
