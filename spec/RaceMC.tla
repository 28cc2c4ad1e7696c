------------------------------- MODULE RaceMC -------------------------------
(* Race with every operation, and the programs that the driver runs on the real code: every multiset of 2..N kinds *)
(* of operation at once.                                                                                          *)
EXTENDS Race, IOUtils
Everything == {"get", "write", "create", "delete", "pull", "serve", "client", "member", "group"}
Stored == {"get", "write", "create", "delete", "pull"}
Writers == {"write", "create", "pull"}

Kinds == <<"get", "write", "create", "delete", "pull", "rpc", "stream", "new">>
Sorted(n) == {p \in [1..n -> 1..Len(Kinds)] : \A i \in 1..(n - 1) : p[i] <= p[i + 1]}
Emit(x) == x = x /\ \A n \in {2, 3} : \A p \in Sorted(n) :
          PrintT("SCRIPT " \o ToString([i \in 1..n |-> Kinds[p[i]]]))
EmitInit == Init /\ op = [t \in Thr |-> "get"] /\ Emit(op)
EmitSpec == EmitInit /\ [][FALSE]_vars
=============================================================================
