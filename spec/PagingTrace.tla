----------------------------- MODULE PagingTrace -----------------------------
(* Pages recorded from the library's paged lists (C15).  The items are known by what they look like with each of the
   read masks.  Classes of requests: "chain" with tokens that were issued for this; "bad" with a token no server
   issues; "odd" with tokens altered, made up, or issued when the collection was another: anything but pages that are
   too long, or no end of them. *)
EXTENDS Paging, TraceLib
ASSUME InitRegs
VARIABLES by, n, toks, s, l
vars == <<by, n, toks, s, l>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Init == s \in 1..NSessions /\ l = 1 /\ by = <<>> /\ n = 0 /\ toks = <<>>
Items == Is("items") /\ by' = Ev.by /\ n' = Ev.n /\ toks' = <<>>
Refused == Is("page") /\ Ev.code # "OK" /\ UNCHANGED <<by, n, toks>>
           /\ IF Ev.size < 0 \/ Ev.cls # "chain" THEN TRUE ELSE FALSE
Chain == /\ Is("page") /\ Ev.cls = "chain" /\ Ev.code = "OK" /\ Ev.size >= 0 /\ Known(toks, Ev.tok)
         /\ LET p == At(toks, Ev.tok)
                q == p + Count(n, p, Ev.size)
            IN /\ Ev.got = Page(by[Ev.mask], p, Ev.size)
               /\ Ev.total = n
               /\ Next1(toks, Ev.next, p, q, n)
               /\ toks' = Learn(toks, Ev.next, q)
         /\ UNCHANGED <<by, n>>
Odd == /\ Is("page") /\ Ev.cls = "odd" /\ Ev.code = "OK" /\ Ev.size >= 0
       /\ Len(Ev.got) <= Cap(Ev.size) /\ UNCHANGED <<by, n, toks>>
End == Is("end") /\ UNCHANGED <<by, n, toks>>
Next == Items \/ Refused \/ Chain \/ Odd \/ End
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
==============================================================================
