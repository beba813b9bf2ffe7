-------------------------------- MODULE Report --------------------------------
(***************************************************************************)
(* Texts about what was found, and comparing lineages (C31).               *)
(*  caps:    the text of a set of capability flags is written bit by bit;   *)
(*           reading it back must give the set (Said).                      *)
(*  lineage: two lists of nodes are compared node by node, field by field;  *)
(*           the answer must be equality (Same).  The second list is the    *)
(*           first one after some edits.                                    *)
(*  value:   two values of one kind, rendered one after the other: the texts *)
(*           must differ if the values do (Apart).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS Mode, MaxEdits, Mutant

VARIABLES bits, i, text,        \* caps
          l1, l2, n, k, eq,     \* lineage
          kind, v1, v2          \* value
vars == <<bits, i, text, l1, l2, n, k, eq, kind, v1, v2>>

(* --- capabilities --- *)
KnownBits == 0 .. 4
CapName == <<"InstalledData", "SharedUserId", "Permission", "Rollback", "Auth">>
(* a flag of no name is written as its value, which the bit number stands for here *)
Token(b) == IF b \in KnownBits THEN [name |-> CapName[b + 1], bit |-> -1] ELSE [name |-> "", bit |-> b]
BitOf(t) == IF t.bit >= 0 THEN t.bit ELSE (CHOOSE b \in KnownBits : CapName[b + 1] = t.name)
Said == (Mode = "caps" /\ i = 32) => {BitOf(text[x]) : x \in DOMAIN text} = bits /\ Len(text) = Cardinality(bits)
LastBit == IF Mutant = "short" THEN 30 ELSE 31
CapSets == {A \cup B : A \in SUBSET KnownBits, B \in {{}} \cup {{x} : x \in 5 .. 31}}
           \cup {{x, y, z} : x \in 0 .. 31, y \in 0 .. 31, z \in {5, 30, 31}} \cup {0 .. 31, 5 .. 31, 0 .. 30}
WriteBit ==
  /\ Mode = "caps" /\ i < 32 /\ i' = i + 1
  /\ text' = IF i \in bits /\ i <= LastBit /\ ~(Mutant = "known" /\ i \notin KnownBits) THEN Append(text, Token(i)) ELSE text
  /\ UNCHANGED <<bits, l1, l2, n, k, eq, kind, v1, v2>>

(* --- lineages --- *)
(* the same certificate may be present as two objects; others share a subject, a serial number or a key *)
CertsOf == {"a", "aTwin", "sameName", "sameSerial", "sameKey"}
Ident(c) == IF c = "aTwin" THEN "a" ELSE c
Nd(c, pa, na, s, f) == [c |-> c, pa |-> pa, na |-> na, s |-> s, f |-> f]
Means(l) == [x \in DOMAIN l |-> [l[x] EXCEPT !.c = Ident(@)]]
Sigs == {"", "s1", "s2", "s1x"}
Node0 == Nd("a", 259, 259, "s1", 23)
Lists0 == {<<>>, <<Node0>>, <<Nd("a", 0, 259, "", 3), Nd("sameName", 259, 513, "s1", 23)>>, <<Node0, Nd("sameKey", 259, 259, "s2", 0), Nd("sameSerial", 513, 0, "s1", 31)>>}
NodeEdits(x) == {[x EXCEPT !.c = y] : y \in CertsOf} \cup {[x EXCEPT !.pa = y] : y \in {0, 257, 259, 513}} \cup {[x EXCEPT !.na = y] : y \in {0, 257, 259, 513}}
                \cup {[x EXCEPT !.s = y] : y \in Sigs} \cup {[x EXCEPT !.f = y] : y \in {0, 3, 7, 23, 31, 55}}
EditList ==
  /\ Mode = "lineage" /\ k = 0 /\ n < MaxEdits /\ n' = n + 1
  /\ \/ \E x \in DOMAIN l2 : \E y \in NodeEdits(l2[x]) : l2' = [l2 EXCEPT ![x] = y]
     \/ \E x \in 1 .. (Len(l2) + 1) : l2' = InsertAt(l2, x, Node0)
     \/ \E x \in DOMAIN l2 : l2' = RemoveAt(l2, x)
     \/ \E x \in 1 .. (Len(l2) - 1) : l2' = [l2 EXCEPT ![x] = l2[x + 1], ![x + 1] = l2[x]]
  /\ UNCHANGED <<bits, i, text, l1, k, eq, kind, v1, v2>>
EqNode(a, b) == /\ Ident(a.c) = Ident(b.c) /\ a.pa = b.pa /\ a.na = b.na /\ (Mutant = "sig" \/ a.s = b.s) /\ a.f = b.f
Compare ==
  /\ Mode = "lineage"
  /\ \/ k = 0 /\ k' = 1 /\ eq' = (Len(l1) = Len(l2) \/ Mutant = "prefix")
     \/ k > 0 /\ eq /\ k <= Len(l1) /\ k <= Len(l2) /\ k' = k + 1 /\ eq' = EqNode(l1[k], l2[k])
  /\ UNCHANGED <<bits, i, text, l1, l2, n, kind, v1, v2>>
Compared == Mode = "lineage" /\ k > 0 /\ (~eq \/ k > Len(l1) \/ k > Len(l2))
Same == Compared => (eq <=> Means(l1) = Means(l2))

(* --- values of one kind --- *)
Levels == ((-6) .. 40) \cup {1000, 2147483646, 2147483647, -2147483647}
LevelNames == <<"", "", "V1_5_Cupcake", "V1_6_Donut", "V2_0_Eclair", "V2_0_1_Eclair", "V2_1_Eclair", "V2_2_Froyo", "V2_3_Gingerbread", "V2_3_3_Gingerbread",
  "V3_0_Honeycomb", "V3_1_Honeycomb", "V3_2_Honeycomb", "V4_0_1_ICS", "V4_0_3_ICS", "V4_1_JellyBean", "V4_2_JellyBean", "V4_3_JellyBean", "V4_4_KitKat", "",
  "V5_0_Lollipop", "V5_1_Lollipop", "V6_0_Marshmallow", "V7_0_Nougat", "V7_1_Nougat", "V8_0_Oreo", "V8_1_Oreo", "V9_0_Pie", "V10_0_Ten", "V11_0_Eleven",
  "V12_0_S", "V12_1_S_V2", "V13_0_TIRAMISU", "V14_0_UPSIDE_DOWN_CAKE">>
(* the algorithms as scheme v2 numbers them *)
Algos == {256 * h + l : h \in 0 .. 5, l \in (0 .. 5) \cup (30 .. 40)}
AlgoNames == 257 :> "SigRsaPssWithSha256" @@ 258 :> "SigRsaPssWithSha512" @@ 259 :> "SigRsaPkcs1V15WithSha256" @@ 260 :> "SigRsaPkcs1V15WithSha512"
  @@ 513 :> "SigEcdsaWithSha256" @@ 514 :> "SigEcdsaWithSha512" @@ 769 :> "SigDsaWithSha256"
  @@ 1057 :> "SigVerityRsaPkcs1V15WithSha256" @@ 1059 :> "SigVerityEcdsaWithSha256" @@ 1061 :> "SigVerityDsaWithSha256"
(* block ids: 3k+1 is the one at position k of the table, 3k and 3k+2 the numbers next to it *)
BlockNames == <<"DependencyMetadata", "MeituanMetadata", "SourceStampV1 (deprecated)", "SourceStampV2", "VerityPadding", "SchemeV2Signature", "SchemeV3Signature", "SchemeV3.1Signature", "PlayFrosting">>
Blocks == 0 .. 29
Values(kd) == CASE kd = "level" -> Levels [] kd = "algo" -> Algos [] kd = "block" -> Blocks
NameOf(kd, v) ==
  CASE kd = "level" -> IF v = -1 THEN "-Infinity" ELSE IF v = 2147483647 THEN "+Infinity" ELSE IF v \in DOMAIN LevelNames THEN LevelNames[v] ELSE ""
    [] kd = "algo" -> IF v \in DOMAIN AlgoNames THEN AlgoNames[v] ELSE ""
    [] kd = "block" -> IF v % 3 = 1 /\ v \div 3 < Len(BlockNames) THEN BlockNames[v \div 3 + 1] ELSE ""
(* what a level supports: the schemes, the sandbox rule, the source stamp *)
Supports(v) == [v2 |-> v >= 24, v3 |-> v >= 28, v31 |-> v >= 33, sandbox |-> v >= 26, stamp |-> v >= 30]
Text(kd, v) == LET nm == NameOf(kd, IF Mutant = "names" /\ kd = "algo" /\ v = 1061 THEN 1059 ELSE v) IN IF nm = "" THEN <<"value", v>> ELSE <<"name", nm>>
Apart == Mode = "value" => (v1 # v2 => Text(kind, v1) # Text(kind, v2))
NextValue == Mode = "value" /\ v1' \in {v \in Values(kind) : v < v2} /\ n = 0 /\ n' = 1 /\ UNCHANGED <<bits, i, text, l1, l2, k, eq, kind, v2>>

Init ==
  /\ i = 0 /\ text = <<>> /\ n = 0 /\ k = 0 /\ eq = TRUE
  /\ IF Mode = "caps" THEN bits \in CapSets ELSE bits = {}
  /\ IF Mode = "lineage" THEN l1 \in Lists0 /\ l2 = l1 ELSE l1 = <<>> /\ l2 = <<>>
  /\ IF Mode = "value" THEN kind \in {"level", "algo", "block"} /\ v1 \in Values(kind) /\ v2 = v1 ELSE kind = "" /\ v1 = 0 /\ v2 = 0
Next == WriteBit \/ EditList \/ Compare \/ NextValue
Spec == Init /\ [][Next]_vars

Emit ==
  /\ (Mode = "caps" /\ i = 32) => PrintT("@@" \o ToJson([mode |-> Mode, bits |-> SetToSeq(bits), text |-> text]))
  /\ Compared => PrintT("@@" \o ToJson([mode |-> Mode, l1 |-> l1, l2 |-> l2, eq |-> eq]))
  /\ (Mode = "value" /\ n = 0) => PrintT("@@" \o ToJson([mode |-> Mode, kind |-> kind, v |-> v1, name |-> NameOf(kind, v1), sup |-> Supports(v1)]))
=============================================================================
