-------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* Reading nested length-prefixed data (C24): the shape of signing blocks, *)
(* signers, lineages, stamps, DER and AXML chunks.  The input is any S     *)
(* cells, each a hostile length: 0 .. S+1.  The reader goes D levels deep, *)
(* copies what it descends into, and gives up on a length that reaches     *)
(* beyond the part it is in.  Then it ends, never looks outside, and its   *)
(* work and memory are bounded by the input.  Trusting = TRUE reads on, up *)
(* to the end of the whole input: there the bounds must fail.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS S, D, Trusting

VARIABLES in, stack, pos, work, mem, out
vars == <<in, stack, pos, work, mem, out>>

Init ==
  /\ in \in [1..S -> 0..S + 1]
  /\ stack = <<S>> /\ pos = 1 /\ work = 0 /\ mem = S /\ out = "-"

Top == stack[Len(stack)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

Next ==
  /\ out = "-" /\ UNCHANGED in
  /\ IF pos > Top
     THEN IF Len(stack) = 1
          THEN out' = "ok" /\ UNCHANGED <<stack, pos, work, mem>>
          ELSE stack' = Pop(stack) /\ pos' = Top + 1 /\ UNCHANGED <<work, mem, out>>
     ELSE LET n == in[pos] e == pos + n limit == IF Trusting THEN S ELSE Top IN
          IF e > limit
          THEN out' = "err" /\ UNCHANGED <<stack, pos, work, mem>>
          ELSE /\ work' = work + 1
               /\ mem' = mem + n
               /\ UNCHANGED out
               /\ IF Len(stack) <= D THEN stack' = Append(stack, e) /\ pos' = pos + 1
                                     ELSE stack' = stack /\ pos' = e + 1
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == pos <= S + 1 /\ \A i \in DOMAIN stack : stack[i] <= S
Bounded == work <= S /\ mem <= S * (D + 2)
Ends == <>(out # "-")
=============================================================================
