------------------------------- MODULE Manifest -------------------------------
(***************************************************************************)
(* What AndroidManifest.xml says about the SDK range and the sandbox (C14, *)
(* C15).  A document is a tree of elements, written as the list of its     *)
(* start tags with their depth (the root has depth 1).  Of all of it only  *)
(* three attributes count: targetSandboxVersion of the root, minSdkVersion *)
(* and targetSdkVersion of a uses-sdk directly below the root; a missing   *)
(* minimum means 1, a missing target means the minimum.  The reader walks  *)
(* the tags one by one; every document the edits lead to is read by the    *)
(* reader, compared with what the document means (Faithful), and emitted   *)
(* together with the verdicts of calls that depend on what was read.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS MaxEdits, Sample, Mutant

MaxInt == 2147483647
AnyMin == -1

(* attributes: [k, t, i]: name, type of the value (int, hex: a number i; code: a word, ref: a reference), number *)
At(k, i) == [k |-> k, t |-> "int", i |-> i]
Hex(k, i) == [k |-> k, t |-> "hex", i |-> i]
Odd(k, t) == [k |-> k, t |-> t, i |-> 0]
El(n, d, at) == [n |-> n, d |-> d, at |-> at]

MIN == "minSdkVersion"
TGT == "targetSdkVersion"
SBX == "targetSandboxVersion"

Doc0(min, tgt, sbx) == <<
  El("manifest", 1, <<At("versionCode", 7)>> \o (IF sbx = 0 THEN <<>> ELSE <<At(SBX, sbx)>>)),
  El("uses-permission", 2, <<At("maxSdkVersion", 18)>>),
  El("uses-sdk", 2, (IF min = 0 THEN <<>> ELSE <<At(MIN, min)>>) \o (IF tgt = 0 THEN <<>> ELSE <<At(TGT, tgt)>>)),
  El("application", 2, <<>>),
  El("activity", 3, <<At("versionCode", 1)>>) >>

VARIABLES doc, n,   \* the document, edits so far
          pos, rd,  \* the reader: next tag, what it knows
          phase     \* edit | read | done
vars == <<doc, n, pos, rd, phase>>

R0 == [min |-> 1, tgt |-> 0, tgtSet |-> FALSE, sbx |-> 1, err |-> FALSE, stop |-> FALSE]

(* --- what a document means --- *)
Lookup(at, k) == LET s == SelectSeq(at, LAMBDA a : a.k = k) IN IF s = <<>> THEN <<>> ELSE <<s[1]>>
Numeric(a) == a.t \in {"int", "hex"}
BelowRoot(nm) == {i \in DOMAIN doc : doc[i].n = nm /\ doc[i].d = 2}
Sdk == IF BelowRoot("uses-sdk") = {} THEN <<>> ELSE doc[Min(BelowRoot("uses-sdk"))].at
Meaning ==
  LET m == Lookup(Sdk, MIN)
      t == Lookup(Sdk, TGT)
      s == Lookup(doc[1].at, SBX)
      min == IF m = <<>> THEN 1 ELSE m[1].i IN
  IF \E x \in {m, t, s} : x # <<>> /\ ~Numeric(x[1]) THEN [err |-> TRUE, min |-> 0, tgt |-> 0, sbx |-> 0]
  ELSE [err |-> FALSE, min |-> min, tgt |-> IF t = <<>> THEN min ELSE t[1].i, sbx |-> IF s = <<>> THEN 1 ELSE s[1].i]

(* --- the reader --- *)
Take(r, at, k) ==
  LET s == Lookup(at, k) IN
  IF r.err \/ s = <<>> THEN r
  ELSE IF ~Numeric(s[1]) \/ (Mutant = "dec" /\ s[1].t = "hex") THEN [r EXCEPT !.err = TRUE]
  ELSE CASE k = MIN -> [r EXCEPT !.min = s[1].i]
         [] k = TGT -> [r EXCEPT !.tgt = s[1].i, !.tgtSet = TRUE]
         [] k = SBX -> [r EXCEPT !.sbx = s[1].i]
ReadTag(r, e) ==
  IF e.n = "manifest" /\ (e.d = 1 \/ Mutant = "anydepth") THEN Take(r, e.at, SBX)
  ELSE IF (e.n = "uses-sdk" \/ Mutant = "anyname") /\ (e.d = 2 \/ Mutant = "anydepth") THEN [Take(Take(r, e.at, MIN), e.at, TGT) EXCEPT !.stop = e.n = "uses-sdk"]
  ELSE r
Answer(r) == IF r.err THEN [err |-> TRUE, min |-> 0, tgt |-> 0, sbx |-> 0]
             ELSE [err |-> FALSE, min |-> r.min, tgt |-> IF r.tgtSet \/ Mutant = "notarget" THEN r.tgt ELSE r.min, sbx |-> r.sbx]

BeginRead == /\ phase = "edit" /\ phase' = "read" /\ pos' = 1 /\ rd' = R0 /\ UNCHANGED <<doc, n>>
ReadNext == /\ phase = "read" /\ pos <= Len(doc) /\ ~rd.err /\ ~rd.stop
            /\ rd' = ReadTag(rd, doc[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<doc, n, phase>>
EndRead == /\ phase = "read" /\ (pos > Len(doc) \/ rd.err \/ rd.stop)
           /\ phase' = "done" /\ UNCHANGED <<doc, n, pos, rd>>

(* --- edits --- *)
Nums(k) == IF k = SBX THEN {0, 1, 2, 3, -1} ELSE {-5, -1, 0, 1, 14, 23, 24, 26, 29, 30, 31, 34, MaxInt}
Values(k) == {At(k, i) : i \in Nums(k)} \cup {Hex(k, i) : i \in {-5, -1, 0, 2, 24, 30, MaxInt}} \cup {Odd(k, "code"), Odd(k, "ref"), Odd(k, "empty")}
Bait == {At(MIN, 33), At(TGT, 33), At(TGT, 29), At(SBX, 1), At(SBX, 2), Odd(MIN, "code"), Odd(SBX, "code"), At("maxSdkVersion", 20), At("minSdkVersionFull", 33), At("sdkVersion", 31)}
Names == {"application", "uses-permission-sdk-23", "meta-data", "manifest", "uses-sdk"}
BaitAts == {<<At(MIN, 33), At(TGT, 33)>>, <<At(TGT, 20), At(MIN, 20)>>, <<At(SBX, 2), Odd(MIN, "code")>>, <<Odd(SBX, "ref")>>, <<At(SBX, 1)>>, <<>>}
HasAt(at, k) == \E i \in DOMAIN at : at[i].k = k
(* positions and depths at which a new element can begin: below or beside what precedes it, not orphaning what follows *)
Leaf(i) == IF i = Len(doc) THEN TRUE ELSE doc[i + 1].d <= doc[i].d
WithDoc(d) == doc' = d
EditAct ==
  /\ phase = "edit" /\ n < MaxEdits /\ n' = n + 1 /\ UNCHANGED <<pos, rd, phase>>
  /\ \/ \E i \in DOMAIN doc : \E j \in DOMAIN doc[i].at : \E v \in (IF doc[i].at[j].k \in {MIN, TGT, SBX} THEN Values(doc[i].at[j].k) ELSE {}) :
          v # doc[i].at[j] /\ WithDoc([doc EXCEPT ![i].at[j] = v])
     \/ \E i \in DOMAIN doc : \E j \in DOMAIN doc[i].at : WithDoc([doc EXCEPT ![i].at = RemoveAt(@, j)])
     \/ \E i \in DOMAIN doc : \E j \in {1, Len(doc[i].at) + 1} : \E v \in Bait :
          ~HasAt(doc[i].at, v.k) /\ WithDoc([doc EXCEPT ![i].at = InsertAt(@, j, v)])
     \/ \E i \in DOMAIN doc : Len(doc[i].at) > 1 /\ WithDoc([doc EXCEPT ![i].at = Reverse(@)])
     \/ \E i \in 2 .. (Len(doc) + 1), nm \in Names, at \in BaitAts :
          \E d \in 2 .. (doc[i - 1].d + 1) :
            /\ i <= Len(doc) => doc[i].d <= d + 1
            /\ nm = "uses-sdk" => d # 2
            /\ WithDoc(InsertAt(doc, i, El(nm, d, at)))
     \/ \E i \in 2 .. Len(doc) : Leaf(i) /\ WithDoc(RemoveAt(doc, i))
     \/ \E i \in 2 .. Len(doc) : Leaf(i) /\ \E j \in 2 .. Len(doc) :
          LET d == RemoveAt(doc, i) IN j # i /\ doc[i].d <= d[j - 1].d + 1 /\ (j <= Len(d) => d[j].d <= doc[i].d + 1 /\ d[j].d <= doc[i].d) /\ WithDoc(InsertAt(d, j, doc[i]))
     \/ \E i \in 2 .. Len(doc) : doc[i].n = "uses-sdk" /\ Leaf(i) /\ \E nm \in Names \ {"uses-sdk"} :
          WithDoc(SubSeq(doc, 1, i - 1) \o <<El(nm, doc[i].d, <<>>), [doc[i] EXCEPT !.d = @ + 1]>> \o SubSeq(doc, i + 1, Len(doc)))

Init == /\ doc \in {Doc0(14, 23, 0), Doc0(24, 30, 2), Doc0(0, 0, 1), Doc0(30, 0, 0)}
        /\ n = 0 /\ pos = 0 /\ rd = R0 /\ phase = "edit"
Next == EditAct \/ BeginRead \/ ReadNext \/ EndRead
Spec == Init /\ [][Next]_vars

Faithful == phase = "done" => Answer(rd) = Meaning
(* a tree: one root, no gaps *)
Tree == /\ doc[1].d = 1 /\ \A i \in 2 .. Len(doc) : doc[i].d \in 2 .. (doc[i - 1].d + 1)
        /\ Cardinality(BelowRoot("uses-sdk")) <= 1

(* --- verdicts: of an archive with a good JAR signature (v1) and one with a good v2 signature as well (v2) --- *)
Consulted(lo, hi) == lo = AnyMin \/ hi >= 26
Accepts(arch, lo, hi) ==
  LET m == Meaning
      read == Consulted(lo, hi) /\ ~m.err
      low == IF lo = AnyMin /\ read THEN m.min ELSE lo
      block == arch = "v2" /\ hi >= 24 IN
  IF low > hi THEN FALSE
  ELSE IF block /\ low >= 24 THEN TRUE
  ELSE IF block THEN ~(Consulted(lo, hi) /\ m.err)
  ELSE ~(read /\ ((m.sbx > 1 /\ hi >= 26) \/ (m.tgt >= 30 /\ hi >= m.tgt)))
Calls ==
  LET m == Meaning
      his == {h \in {m.min - 1, m.min, m.tgt - 1, m.tgt, 25, 26, 29, 30, 33, MaxInt} : h >= 16} IN
  {<<a, lo, h>> : a \in {"v1", "v2"}, lo \in {AnyMin, 1, 24}, h \in his}
Emit == phase = "done" /\ (Sample > 1 /\ n = MaxEdits => RandomElement(1 .. Sample) = 1) =>
  PrintT("@@" \o ToJson([doc |-> doc, m |-> Meaning, calls |-> SetToSeq({[a |-> c[1], lo |-> c[2], hi |-> c[3], acc |-> Accepts(c[1], c[2], c[3])] : c \in Calls})]))
=============================================================================
