--------------------------------- MODULE IO ---------------------------------
(***************************************************************************)
(* Failures of the reader a call is given (C23).  A call makes up to K     *)
(* operations, in phases: find the end record, read the signing block,     *)
(* digest the contents, read the archive for the manifest and the JAR      *)
(* signature.  The environment makes some of them fail: an error, an error *)
(* after some of the bytes, or fewer bytes than asked for (no failure);    *)
(* once, or every operation from then on.  A failure is remembered and     *)
(* ends the call with an error, whatever the phase made of it: it must     *)
(* never pass for "there is no signing block", "the file ends here" or the *)
(* like, which lead to other, weaker rules.  Swallow = TRUE is the reading *)
(* where it does; there Holds must fail.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS K, Faults, Swallow

Phases == <<"end", "block", "digest", "archive">>
Kinds == {"err", "part", "ueof", "eof", "short"}       \* short: no failure
Modes == {"once", "on"}

FileKinds == [block : {"none", "good", "tampered", "bad"}, v1 : {"good", "bad"}]

V1(f) == IF f.v1 = "good" THEN "v1" ELSE "rej"
Verdict(f) == CASE f.block = "none" -> V1(f)
                [] f.block = "good" -> "v2"
                [] OTHER -> "rej"

VARIABLES file, ph, k, plan, failedIn, out
vars == <<file, ph, k, plan, failedIn, out>>

Init ==
  /\ file \in FileKinds
  /\ ph = 1 /\ k = 0 /\ plan = <<>> /\ failedIn = {} /\ out = "-"

Broken == \E i \in DOMAIN plan : plan[i].mode = "on" /\ plan[i].kind # "short"

(* operations k+1 .. k+n in the same phase, the last one failing; or none failing *)
Fail(n, kind, mode) ==
  /\ out = "-" /\ Len(plan) < Faults /\ ~Broken /\ k + n <= K
  /\ k' = k + n
  /\ plan' = Append(plan, [k |-> k + n, kind |-> kind, mode |-> mode])
  /\ failedIn' = IF kind = "short" THEN failedIn ELSE failedIn \cup {Phases[ph]}
  /\ UNCHANGED <<file, ph, out>>

Phase ==
  /\ out = "-" /\ ph < Len(Phases)
  /\ ph' = ph + 1
  /\ failedIn' = IF Broken THEN failedIn \cup {Phases[ph']} ELSE failedIn
  /\ UNCHANGED <<file, k, plan, out>>

(* what the phases make of the file when they do not tell a failure from an end *)
Misread == CASE failedIn \cap {"end", "block"} # {} -> IF "archive" \in failedIn THEN "rej" ELSE V1(file)
             [] failedIn \cap {"archive"} # {} /\ file.block = "none" -> "rej"
             [] OTHER -> Verdict(file)

Finish ==
  /\ out = "-" /\ ph = Len(Phases)
  /\ out' = IF failedIn = {} THEN Verdict(file) ELSE IF Swallow THEN Misread ELSE "err"
  /\ UNCHANGED <<file, ph, k, plan, failedIn>>

Next == Phase \/ Finish \/ \E n \in 1..K, kind \in Kinds, mode \in Modes : Fail(n, kind, mode)
Spec == Init /\ [][Next]_vars

Holds == out = "-" \/ out = Verdict(file) \/ out \in {"err", "rej"}
Short == (out # "-" /\ failedIn = {}) => out = Verdict(file)
Emit == (out # "-" /\ plan # <<>> /\ file = [block |-> "good", v1 |-> "good"] /\ ph = Len(Phases)) => PrintT("@@" \o ToJson(plan))
=============================================================================
