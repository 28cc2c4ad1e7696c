------------------------------- MODULE Masks -------------------------------
(* Field masks over messages.  A message is a function from path to a sequence of strings: a set scalar is <<v>>, a
   present message field <<"{}">>, a list its elements, a map <<"<>">> with one sub path "m[k]" per entry.  Absent paths
   are unset; the root "" is present in every non-nil message.  A schema S maps every field path to [k, o]: its kind
   and the oneof it belongs to ("" if none).  A mask is [nil |-> BOOLEAN, p |-> sequence of paths]. *)
EXTENDS Integers, Sequences, FiniteSets

At(m, p) == IF p \in DOMAIN m THEN m[p] ELSE <<>>
Range(s) == {s[i] : i \in DOMAIN s}

Under(p, q) == \/ p = q \/ q = ""
               \/ /\ Len(p) > Len(q)
                  /\ SubSeq(p, 1, Len(q)) = q
                  /\ SubSeq(p, Len(q) + 1, Len(q) + 1) \in {".", "["}
Covered(E, p) == \E q \in E : Under(p, q)
\* p is a proper ancestor of something in E
Contains(E, p) == \E q \in E : q # p /\ Under(q, p)
Intersect(A, B) == {p \in A : Covered(B, p)} \cup {p \in B : Covered(A, p)}
\* the widest members of E
Tops(E) == {p \in E : \A q \in E : q # p => ~Under(p, q)}

ValidMask(S, M) == M.nil \/ \A i \in DOMAIN M.p : M.p[i] \in DOMAIN S

---------------------------------------------------------------------------
(* Reading *)
Project(m, M) ==
  IF M.nil THEN m
  ELSE LET E == Range(M.p)
       IN [p \in {q \in DOMAIN m : q = "" \/ Covered(E, q) \/ Contains(E, q)} |-> m[p]]

\* r is the projection of m; whether a container left without selected fields is still present is not constrained
IsProjection(m, M, r) ==
  IF M.nil THEN r = m
  ELSE LET E == Range(M.p)
       IN \A p \in (DOMAIN m \cup DOMAIN r) \ {""} :
            IF Covered(E, p) THEN At(r, p) = At(m, p)
            ELSE IF Contains(E, p) THEN At(r, p) \in {At(m, p), <<>>}
            ELSE At(r, p) = <<>>

---------------------------------------------------------------------------
(* Writing *)

\* the paths a write may touch
Touch(S, M, W) == IF M.nil THEN (IF W.nil THEN {""} ELSE Range(W.p))
                  ELSE IF W.nil THEN Range(M.p) ELSE Intersect(Range(M.p), Range(W.p))

Disjoint(W, p) == ~W.nil /\ ~Covered(Range(W.p), p) /\ ~Contains(Range(W.p), p)
MustReject(S, M, W) == ~M.nil /\ (~ValidMask(S, M) \/ \E p \in Range(M.p) : Disjoint(W, p))
MustAccept(S, M, W, R) == /\ ValidMask(S, R)
                          /\ \/ M.nil
                             \/ /\ ValidMask(S, M)
                                /\ W.nil \/ \A p \in Range(M.p) : Covered(Range(W.p), p)

\* kind of a message path, map entries included
Kind(S, p) == IF p \in DOMAIN S THEN S[p].k ELSE IF p = "" THEN "msg" ELSE "entry"

Sib(S, p) == IF p \in DOMAIN S /\ S[p].o # "" THEN {q \in DOMAIN S : q # p /\ S[q].o = S[p].o} ELSE {}

\* the set of values path p may have after a successful write, ignoring oneof side effects and the reset mask
Outcomes(S, pre, src, M, W, E, p) ==
  IF Covered(E, p)
  THEN IF M.nil THEN {At(src, p)}                     \* make the writable part look like src
       ELSE LET q == CHOOSE x \in Tops(E) : Under(p, x)
                k == Kind(S, p)
                named == q \in Range(M.p)
                merged == CASE k = "list" -> At(pre, p) \o At(src, p)
                            [] At(src, p) # <<>> -> At(src, p)
                            [] OTHER -> At(pre, p)
            IN IF p = q /\ k = "scalar" THEN {At(src, p)} \cup (IF named THEN {} ELSE {merged})
               ELSE IF At(src, q) = <<>> THEN {<<>>} \cup (IF named THEN {} ELSE {merged})
               ELSE {merged} \cup (IF p \in E /\ k = "scalar" THEN {At(src, p)} ELSE {})
  ELSE IF Contains(E, p) THEN {<<>>, <<"{}">>}
  ELSE {At(pre, p)}

\* setting one member of a oneof unsets the others
OneofCleared(S, src, post, E, p) ==
  \E a \in DOMAIN S : /\ Under(p, a)
                      /\ \E b \in Sib(S, a) : /\ Covered(E, b) \/ Contains(E, b)
                                              /\ At(src, b) # <<>> \/ At(post, b) # <<>>

IsUpdate(S, pre, src, M, W, R, post) ==
  LET E == Touch(S, M, W)
      r == IF R.nil THEN {} ELSE Range(R.p)
      nothing == ~M.nil /\ M.p = <<>>
      ok(useR) == \A p \in (DOMAIN pre \cup DOMAIN src \cup DOMAIN post) \ {""} :
                    IF useR /\ Covered(r, p) THEN At(post, p) = <<>>
                    ELSE \/ At(post, p) \in Outcomes(S, pre, src, M, W, E, p)
                         \/ At(post, p) = <<>> /\ OneofCleared(S, src, post, E, p)
  IN "" \in DOMAIN post /\ (ok(TRUE) \/ (nothing /\ ok(FALSE)))

---------------------------------------------------------------------------
(* A canonical result, used by the register specification; IsUpdate(..., Apply(...)) is one of its theorems. *)
Apply(S, pre, src, M, W, R) ==
  LET E == Touch(S, M, W)
      r == IF R.nil THEN {} ELSE Range(R.p)
      D == (DOMAIN pre \cup DOMAIN src) \ {""}
      f(p) == IF Covered(r, p) THEN <<>>
              ELSE IF ~Covered(E, p) /\ Contains(E, p) THEN (IF At(pre, p) # <<>> THEN At(pre, p)
                                           ELSE IF \E c \in D : c # p /\ Under(c, p) /\ Covered(E, c) /\ At(src, c) # <<>>
                                                THEN At(src, p) ELSE <<>>)
              ELSE CHOOSE v \in Outcomes(S, pre, src, M, W, E, p) : TRUE
      raw == [p \in D |-> f(p)]
  IN IF ~M.nil /\ M.p = <<>> THEN pre
     ELSE [p \in {q \in D : raw[q] # <<>> /\ ~\E a \in D : a # q /\ Under(q, a) /\ raw[a] = <<>>} \cup {""}
            |-> IF p = "" THEN <<"{}">> ELSE raw[p]]
=============================================================================
