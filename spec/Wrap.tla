-------------------------------- MODULE Wrap --------------------------------
(* One gRPC call in which every send meets a ready receiver, as client and server experience it.

   c : the call
     shape    "unary" (Invoke), "unarys" (the same method through NewStream), "ss", "cs", "bidi"
     sent     how many messages the server got;  half  the client closed its side
     hdr, hdrSent, hdrSeen   header metadata set so far; fixed once sent; whether the client has seen it
     trl      trailer metadata
     resp     the single response of unary, unarys and cs, <<>> until there is one
     cend     how the client's side ended: "" not yet, "cancelled", "deadline"
     ret      how the server ended: "" not yet, or its status
   Metadata is a function from keys to sequences of values. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLE c
Empty == [x \in {} |-> 0]
Of(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Join(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> Of(f, k) \o Of(g, k)]
New(shape) == [shape |-> shape, sent |-> 0, half |-> FALSE, hdr |-> Empty, hdrSent |-> FALSE, hdrSeen |-> FALSE,
               trl |-> Empty, resp |-> <<>>, cend |-> "", ret |-> <<>>]
ManyReqs(k) == k.shape \in {"cs", "bidi"}
ManyResps(k) == k.shape \in {"ss", "bidi"}
Live(k) == k.cend = "" /\ k.ret = <<>>
Serving(k) == k.ret = <<>>
\* the server's handler is handed a single request before it does anything else
Going(k) == Serving(k) /\ (ManyReqs(k) \/ k.sent = 1)

CanC2S(k) == Live(k) /\ ~k.half /\ (ManyReqs(k) \/ k.sent = 0)
CanHalf(k) == Live(k) /\ ~k.half /\ (ManyReqs(k) \/ k.sent = 1)
CanS2C(k) == Live(k) /\ ManyResps(k) /\ Going(k) /\ (ManyReqs(k) \/ k.half)
CanResp(k) == Live(k) /\ k.shape = "cs" /\ k.half /\ k.resp = <<>>
CanSrv(k) == Going(k) /\ (ManyReqs(k) \/ k.half)
CanReadHdr(k) == Live(k) /\ k.hdrSent /\ k.shape # "unary"
CanEnd(k) == Live(k) /\ (k.shape \in {"unary", "unarys"} => k.half)

C2S(k) == [k EXCEPT !.sent = @ + 1]
Half(k) == [k EXCEPT !.half = TRUE]
S2C(k) == [k EXCEPT !.hdrSent = TRUE, !.hdrSeen = TRUE]
Resp(k, m) == [k EXCEPT !.hdrSent = TRUE, !.resp = <<m>>]
\* header metadata can be added until it is sent
SetHdr(k, md) == IF k.hdrSent THEN k ELSE [k EXCEPT !.hdr = Join(@, md)]
SendHdr(k, md) == IF k.hdrSent THEN k ELSE [k EXCEPT !.hdr = Join(@, md), !.hdrSent = TRUE]
SetTrl(k, md) == [k EXCEPT !.trl = Join(@, md)]
ReadHdr(k) == [k EXCEPT !.hdrSeen = TRUE]
End(k, how) == [k EXCEPT !.cend = how]
\* a header that was only set is sent when the server returns
\* the single response of a unary call is what its handler returns
Return(k, st, m) == [k EXCEPT !.ret = <<st>>, !.hdrSent = @ \/ k.cend = "",
                              !.resp = IF k.shape \in {"unary", "unarys"} /\ st.code = "OK" THEN <<m>> ELSE @]

\* what an error returned by a handler becomes: errors that are no status are of unknown kind, those of contexts as such
StatusOf(e) ==
  CASE e.kind = "ok" -> [code |-> "OK", msg |-> "", det |-> ""]
    [] e.kind = "status" -> [code |-> e.code, msg |-> e.msg, det |-> e.det]
    [] e.kind = "cancelled" -> [code |-> "Canceled", msg |-> e.msg, det |-> ""]
    [] e.kind = "deadline" -> [code |-> "DeadlineExceeded", msg |-> e.msg, det |-> ""]
    [] OTHER -> [code |-> "Unknown", msg |-> e.msg, det |-> ""]

\* what the client may be told in the end: o = [cls, code, msg, det, m]
Outcome(k, o) ==
  IF k.cend # "" THEN o.cls = k.cend /\ o.m = ""
  ELSE LET st == k.ret[1] IN
       IF st.code # "OK" THEN o.cls # "EOF" /\ o.code = st.code /\ o.msg = st.msg /\ o.det = st.det /\ o.m = ""
       ELSE IF ManyResps(k) THEN o.cls = "EOF" /\ o.m = ""
       ELSE IF k.resp = <<>> THEN o.cls = "EOF" /\ o.m = ""
       ELSE o.cls = "OK" /\ o.m = k.resp[1]
\* the header and trailer the client has in the end
FinalHdr(k, md) == IF k.cend = "" \/ k.hdrSeen THEN md = k.hdr
                   ELSE md = Empty \/ (k.hdrSent /\ md = k.hdr)
FinalTrl(k, md) == md = IF k.cend = "" THEN k.trl ELSE Empty
=============================================================================
