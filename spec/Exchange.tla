------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* Exchange of values of border faces between the processes of one run.    *)
(*                                                                         *)
(* Process r (0..N-1) owns zone r.  For each field k = 1..Fields it puts   *)
(* its values for every neighbour into the rows of its send buffer, posts  *)
(* a non-blocking send and a non-blocking receive per neighbour, waits     *)
(* for all of them and takes the values of its neighbours out of the rows  *)
(* of its receive buffer.  Both buffers are used again for the next field. *)
(* Last, all heights are gathered by the process 0, in the order of ranks. *)
(*                                                                         *)
(* The network may take the data of a message from the send buffer at any  *)
(* moment between its posting and the completion of its request, and may   *)
(* deliver it at any moment when a receive is posted; messages between two *)
(* processes do not overtake each other.                                   *)
(*                                                                         *)
(* Wait = FALSE leaves out the waiting, to show that it is needed.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Fields, Wait, Export
VARIABLES n, nb, pc, sbuf, rbuf, ghost, sends, recvs, root, sched
vars == <<n, nb, pc, sbuf, rbuf, ghost, sends, recvs, root, sched>>
Ranks == 0..n - 1
Pairs == {p \in (0..MaxN - 1) \X (0..MaxN - 1) : p[1] # p[2]}
Rng(s) == {s[i] : i \in DOMAIN s}
\* the value of the field k which p holds for its neighbour q
Val(p, q, k) == <<p, q, k>>
None == <<>>
\* Neighbours of r in the graph g, in increasing order.
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Graphs(k) == SUBSET {e \in SUBSET (0..k - 1) : Cardinality(e) = 2}
NbOf(g, r) == Sorted({q \in 0..MaxN - 1 : {q, r} \in g /\ q # r})
RowTo(r, q) == CHOOSE i \in DOMAIN nb[r] : nb[r][i] = q

Init ==
    /\ n \in 2..MaxN
    /\ \E g \in Graphs(n) : nb = [r \in 0..n - 1 |-> NbOf(g, r)]
    /\ pc = [r \in 0..n - 1 |-> [k |-> 1, at |-> "put", i |-> 1]]
    /\ sbuf = [r \in 0..n - 1 |-> [i \in DOMAIN nb[r] |-> None]]
    /\ rbuf = sbuf
    /\ ghost = [r \in 0..n - 1 |-> [i \in DOMAIN nb[r] |-> [k \in 1..Fields |-> None]]]
    /\ sends = [p \in Pairs |-> <<>>]
    /\ recvs = [p \in Pairs |-> <<>>]
    /\ root = <<>>
    /\ sched = <<>>

Goto(r, k, at, i) == pc' = [pc EXCEPT ![r] = [k |-> k, at |-> at, i |-> i]]
AllDone(r) == \A q \in Rng(nb[r]) :
    /\ \A j \in DOMAIN sends[<<r, q>>] : sends[<<r, q>>][j].done
    /\ \A j \in DOMAIN recvs[<<q, r>>] : recvs[<<q, r>>][j].done
AfterSends(r) == IF nb[r] = <<>> THEN "wait" ELSE "send"
Note(x) == sched' = IF Export THEN Append(sched, x) ELSE sched
\* One statement of the program of r.
Step(r) ==
    LET p == pc[r]  k == p.k  deg == Len(nb[r]) IN
    /\ Note(<<"step", r, r>>)
    /\ UNCHANGED <<n, nb>>
    /\ \/ /\ p.at = "put"
          /\ sbuf' = [sbuf EXCEPT ![r] = [i \in DOMAIN nb[r] |-> Val(r, nb[r][i], k)]]
          /\ Goto(r, k, IF deg = 0 THEN "wait" ELSE "send", 1)
          /\ UNCHANGED <<rbuf, ghost, sends, recvs, root>>
       \/ /\ p.at = "send"
          /\ sends' = [sends EXCEPT ![<<r, nb[r][p.i]>>] = Append(@, [row |-> p.i, data |-> None, taken |-> FALSE, done |-> FALSE])]
          /\ IF p.i = deg THEN Goto(r, k, "recv", 1) ELSE Goto(r, k, "send", p.i + 1)
          /\ UNCHANGED <<sbuf, rbuf, ghost, recvs, root>>
       \/ /\ p.at = "recv"
          /\ recvs' = [recvs EXCEPT ![<<nb[r][p.i], r>>] = Append(@, [row |-> p.i, done |-> FALSE])]
          /\ IF p.i = deg THEN Goto(r, k, "wait", 1) ELSE Goto(r, k, "recv", p.i + 1)
          /\ UNCHANGED <<sbuf, rbuf, ghost, sends, root>>
       \/ /\ p.at = "wait"
          /\ Wait => AllDone(r)
          /\ Goto(r, k, "get", 1)
          /\ UNCHANGED <<sbuf, rbuf, ghost, sends, recvs, root>>
       \/ /\ p.at = "get"
          /\ ghost' = [ghost EXCEPT ![r] = [i \in DOMAIN nb[r] |-> [@[i] EXCEPT ![k] = rbuf[r][i]]]]
          /\ IF k = Fields THEN Goto(r, k, "gather", 1) ELSE Goto(r, k + 1, "put", 1)
          /\ UNCHANGED <<sbuf, rbuf, sends, recvs, root>>
       \/ /\ p.at = "gather"
          /\ r = 0 => \A q \in Ranks \ {0} : pc[q].at = "end"
          /\ root' = IF r = 0 THEN [q \in Ranks |-> q] ELSE root
          /\ Goto(r, k, "end", 1)
          /\ UNCHANGED <<sbuf, rbuf, ghost, sends, recvs>>
\* The network copies the data of the oldest message from s to d that is not copied yet.
Copy(s, d) ==
    LET q == sends[<<s, d>>]  J == {j \in DOMAIN q : ~q[j].taken} IN
    /\ J # {}
    /\ LET j == CHOOSE x \in J : \A y \in J : x <= y IN
       sends' = [sends EXCEPT ![<<s, d>>][j] = [@ EXCEPT !.data = sbuf[s][q[j].row], !.taken = TRUE, !.done = TRUE]]
    /\ Note(<<"copy", s, d>>)
    /\ UNCHANGED <<n, nb, pc, sbuf, rbuf, ghost, recvs, root>>
\* The oldest message from s to d meets the oldest receive.
Delivered(s, d) == Cardinality({j \in DOMAIN recvs[<<s, d>>] : recvs[<<s, d>>][j].done})
Deliver(s, d) ==
    LET j == Delivered(s, d) + 1  q == sends[<<s, d>>]  w == recvs[<<s, d>>] IN
    /\ j \in DOMAIN q /\ j \in DOMAIN w
    /\ LET x == IF q[j].taken THEN q[j].data ELSE sbuf[s][q[j].row] IN
       rbuf' = [rbuf EXCEPT ![d][w[j].row] = x]
    /\ sends' = [sends EXCEPT ![<<s, d>>][j] = [@ EXCEPT !.taken = TRUE, !.done = TRUE]]
    /\ recvs' = [recvs EXCEPT ![<<s, d>>][j] = [@ EXCEPT !.done = TRUE]]
    /\ Note(<<"deliver", s, d>>)
    /\ UNCHANGED <<n, nb, pc, sbuf, ghost, root>>
Network == \E s, d \in Ranks : s # d /\ (Copy(s, d) \/ Deliver(s, d))
Next == (\E r \in Ranks : Step(r)) \/ Network
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Next)

Ended == \A r \in Ranks : pc[r].at = "end"
\* After the exchange of a field every process holds the values of its neighbours.
Right == \A r \in Ranks : \A i \in DOMAIN nb[r] : \A k \in 1..Fields :
    ghost[r][i][k] = (IF k < pc[r].k \/ pc[r].at \in {"gather", "end"} THEN Val(nb[r][i], r, k) ELSE None)
\* Nobody waits for ever, no messages are left.
NoDeadlock == Ended \/ ENABLED Next
NothingLeft == Ended => \A p \in Pairs : Len(sends[p]) = Len(recvs[p])
RootOrder == Ended => root = [q \in Ranks |-> q]
Ends == <>Ended
Emit == (Export /\ Ended) => PrintT(ToJson([n |-> n, sched |-> sched]))
=============================================================================
