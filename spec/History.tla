------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* Calls one after another in one process (C21).  The environment: files,  *)
(* given as a path, as a fresh reader of some kind at some position, as a  *)
(* reader kept from call to call (wherever the last call left it), and     *)
(* archive handles kept from call to call - over the path, or over that    *)
(* very reader.  A call may move the reader anywhere; it leaves handles    *)
(* open and idle.  What a call says is the verdict on the file's bytes and *)
(* the range, whatever happened before.  Between calls, users read entries *)
(* through handles, pick certificates (which reorders what they were       *)
(* given) and overwrite the results they got.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, Json

CONSTANTS Depth, Full, Sample   \* Full levels explored exhaustively, then Sample events per state

Files == {1, 2}
Ranges == {1, 2}
Fresh == {"bytes-start", "bytes-end", "file-mid", "seek-mid", "short-start"}
Vias == Fresh \cup {"path", "shared", "hpath", "hsame"}

Call(c, f, r, v) == [k |-> c, f |-> f, r |-> r, via |-> v]
Calls == {Call(c, f, r, v) : c \in {"verify", "block"}, f \in Files, r \in Ranges, v \in Vias} \cup {Call("extract", f, 1, v) : f \in Files, v \in Vias}
Uses == {Call("entries", f, 1, v) : f \in Files, v \in {"hpath", "hsame"}} \cup {Call("pick", f, 1, "bytes-start") : f \in Files} \cup {Call("scribble", f, 1, "bytes-start") : f \in Files}

(* what is in the file: Verdict(f, c, r) is all a call may depend on *)
Verdict(f, c, r) == <<f, c, r>>
Content(f) == <<f, "entries">>

VARIABLES hist, pos, handle, said
vars == <<hist, pos, handle, said>>

HandleOf(v) == CASE v = "hpath" -> {"hpath"} [] v = "hsame" -> {"hsame"} [] OTHER -> {}

Init == hist = <<>> /\ pos = [f \in Files |-> "start"] /\ handle = [f \in Files |-> [h \in {"hpath", "hsame"} |-> "closed"]] /\ said = <<>>

(* reading through a handle or a shared reader: starts anywhere, ends anywhere *)
Do(e) ==
  /\ hist' = Append(hist, e)
  /\ handle' = [handle EXCEPT ![e.f] = [h \in DOMAIN @ |-> IF h \in HandleOf(e.via) THEN "idle" ELSE @[h]]]
  /\ pos' = [pos EXCEPT ![e.f] = IF e.via \in {"shared", "hsame"} THEN "anywhere" ELSE @]
  /\ said' = Append(said, IF e.k = "entries" THEN Content(e.f) ELSE IF e.k = "scribble" THEN <<>> ELSE Verdict(e.f, e.k, e.r))

Some(S) == IF Len(hist) < Full THEN S ELSE RandomSubset(Sample, S)
Next == Len(hist) < Depth /\ \E e \in Some(Calls \cup Uses) : Do(e)
Spec == Init /\ [][Next]_vars

(* same question, same answer; handles once open stay usable *)
Holds ==
  /\ \A i, j \in DOMAIN hist : (hist[i].k = hist[j].k /\ hist[i].f = hist[j].f /\ hist[i].r = hist[j].r) => said[i] = said[j]
  /\ \A i \in DOMAIN hist : \A h \in HandleOf(hist[i].via) : handle[hist[i].f][h] = "idle"

Emit == Len(hist) = Depth => PrintT("@@" \o ToJson(hist))
=============================================================================
