------------------------------ MODULE RegisterMC ------------------------------
(* A server that publishes every change to its streams, in order, leaving out what looks the same through a stream's
   mask, is a register (C14): what it says always has a place, when it has said all a stream is quiet, and then the
   last that was heard of it is what a Get with the stream's mask returns. With Broken set the server forgets one change
   of a stream, and Complete has to fail. *)
EXTENDS Register, TLC
CONSTANTS MaxWrites, MaxStreams, Broken
Vals == {"", "1", "2"}
Msg(a, b) == [p \in {""} \cup (IF a = "" THEN {} ELSE {"a"}) \cup (IF b = "" THEN {} ELSE {"b"})
                |-> IF p = "" THEN <<"{}">> ELSE IF p = "a" THEN <<a>> ELSE <<b>>]
Msgs == {Msg(a, b) : a \in Vals, b \in Vals}
Masks3 == {[nil |-> TRUE, p |-> <<>>], [nil |-> FALSE, p |-> <<"a">>], [nil |-> FALSE, p |-> <<"b">>]}
Cut(m, M) == [p \in {q \in DOMAIN m : q = "" \/ M.nil \/ \E i \in 1..Len(M.p) : M.p[i] = q} |-> m[p]]
VARIABLES reg, sts, bus, said, n, lost
vars == <<reg, sts, bus, said, n, lost>>
Init == reg = Msg("", "") /\ sts = <<>> /\ bus = <<>> /\ said = <<>> /\ n = 0 /\ lost = FALSE
Open(uo, M) == /\ Len(sts) < MaxStreams
               /\ sts' = Append(sts, Opened("x", uo, M, reg, TRUE))
               /\ bus' = Append(bus, IF uo THEN <<>> ELSE <<reg>>)
               /\ said' = Append(said, <<>>)
               /\ UNCHANGED <<reg, n, lost>>
Write(v) == /\ n < MaxWrites /\ n' = n + 1 /\ reg' = v /\ said' = said
            /\ sts' = [k \in DOMAIN sts |-> Told(Tried(sts[k], reg), reg, v, {})]
            /\ \/ bus' = [k \in DOMAIN bus |-> Append(bus[k], v)] /\ lost' = lost
               \/ /\ Broken /\ ~lost /\ lost' = TRUE
                  /\ \E j \in DOMAIN bus : bus' = [k \in DOMAIN bus |-> IF k = j THEN bus[k] ELSE Append(bus[k], v)]
Reject == /\ n < MaxWrites /\ n' = n + 1 /\ UNCHANGED <<reg, said, bus, lost>>
          /\ sts' = [k \in DOMAIN sts |-> Tried(sts[k], reg)]
Same(k) == said[k] # <<>> /\ Cut(Head(bus[k]), sts[k].mask) = said[k][1]
\* the server is at leisure to leave out what looks the same
Skip(k) == bus[k] # <<>> /\ Same(k) /\ bus' = [bus EXCEPT ![k] = Tail(@)] /\ UNCHANGED <<reg, sts, said, n, lost>>
Say(k) == LET v == Cut(Head(bus[k]), sts[k].mask)
              P == Places(sts[k], v, {})
          IN /\ bus[k] # <<>>
             /\ said' = [said EXCEPT ![k] = <<v>>]
             /\ bus' = [bus EXCEPT ![k] = Tail(@)]
             /\ UNCHANGED <<reg, n, lost>>
             /\ IF P = {} THEN Repeats(sts[k], v) /\ sts' = sts
                ELSE \E p \in P : (\A q \in P : p <= q) /\ sts' = [sts EXCEPT ![k] = Heard(@, p)]
Next == \/ \E uo \in BOOLEAN, M \in Masks3 : Open(uo, M)
        \/ \E v \in Msgs : Write(v)
        \/ Reject
        \/ \E k \in DOMAIN sts : Skip(k) \/ Say(k)
Spec == Init /\ [][Next]_vars
\* whatever the server says next has a place
Placed == \A k \in DOMAIN sts : bus[k] # <<>> =>
            LET v == Cut(Head(bus[k]), sts[k].mask) IN Places(sts[k], v, {}) # {} \/ Repeats(sts[k], v)
\* having said all, nothing is owed
Complete == \A k \in DOMAIN sts : bus[k] = <<>> => Quiet(sts[k])
\* and what was heard last is what is
Coherent == \A k \in DOMAIN sts : (Quiet(sts[k]) /\ sts[k].got > 0 /\ bus[k] = <<>>) => said[k] = <<Cut(reg, sts[k].mask)>>
Inv == lost \/ (Placed /\ Complete /\ Coherent)
=============================================================================
