-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Calls at the same time on readers of their own (C22).  Process p makes  *)
(* Ops[p] operations on its reader; each fills a buffer, which the process *)
(* goes on to use before its next operation.  The scheduler may preempt a  *)
(* process between operations, Preempt times in all.  The library keeps    *)
(* nothing between or across calls but constant tables: every buffer is    *)
(* its process's own (Shared = FALSE), so a process uses exactly what its  *)
(* own operations read, as it would alone.  Shared = TRUE is the library   *)
(* with one scratch buffer for the whole process: there Holds must fail,   *)
(* which shows that the schedules can tell the difference.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, K, Preempt, Shared   \* N processes of K steps (of as many operations each as the call needs)

Procs == 1..N
Ops == [p \in Procs |-> K]
Buf(p) == IF Shared THEN 1 ELSE p

VARIABLES pc, buf, used, sched, left
vars == <<pc, buf, used, sched, left>>

Init ==
  /\ pc = [p \in Procs |-> 0]
  /\ buf = [p \in Procs |-> <<>>]
  /\ used = [p \in Procs |-> {}]        \* what went into the answer of p: whose reads
  /\ sched = <<>>
  /\ left = Preempt

(* p runs n operations and is preempted, or runs to its end *)
(* the buffer is filled by the last operation before the preemption and used right after it *)
Run(p, n) ==
  /\ pc' = [pc EXCEPT ![p] = @ + n]
  /\ used' = [used EXCEPT ![p] = @ \cup (IF pc[p] = 0 THEN {} ELSE {buf[Buf(p)]}) \cup {<<p>>}]
  /\ buf' = [buf EXCEPT ![Buf(p)] = <<p>>]
  /\ sched' = Append(sched, [p |-> p, n |-> n])

Last == IF sched = <<>> THEN 0 ELSE sched[Len(sched)].p
Running == {p \in Procs : pc[p] < Ops[p]}

Next == \E p \in Running :
  /\ p # Last
  /\ \/ Run(p, Ops[p] - pc[p]) /\ UNCHANGED left
     \/ /\ left > 0 /\ Running # {p}
        /\ left' = left - 1
        /\ \E n \in 1..(Ops[p] - pc[p] - 1) : Run(p, n)

Spec == Init /\ [][Next]_vars

Done == Running = {}
(* nothing of another process in any answer *)
Holds == \A p \in Procs : used[p] \subseteq {<<p>>}
Emit == Done => PrintT("@@" \o ToJson(sched))
=============================================================================
