------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance in the other direction: what the real implementation said   *)
(* on recorded inputs (one JSON object per line, see harness/random.go) is *)
(* checked against the verifier state machine, which is stepped through    *)
(* the same call on the same abstract APK; on the way the property is      *)
(* checked as well.                                                        *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.VERIF_CASES)

Init == /\ \E i \in DOMAIN Cases : inp = [apk |-> Cases[i].apk, min |-> 0, max |-> 0, i |-> i]
        /\ call = "none" /\ pc = "edit" /\ w = W0
Begin == LET o == Cases[inp.i].obs IN Start(o.call, o.min, o.max)
Next == Begin \/ VerifierNext
Spec == Init /\ [][Next]_vars

Agrees(f) ==
  LET o == Cases[inp.i].obs IN
    IF f = "extra" THEN Range(o.extra) = out.extra ELSE o[f] = out[f]

Emit == Done =>
  IF \A f \in Keep : Agrees(f) THEN PrintT("@@" \o ToJson([i |-> inp.i, ok |-> TRUE, res |-> out.res]))
  ELSE PrintT("@@" \o ToJson([i |-> inp.i, ok |-> FALSE, keep |-> Keep, out |-> out]))
=============================================================================
