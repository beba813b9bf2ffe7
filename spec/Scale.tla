-------------------------------- MODULE Scale -------------------------------
(***************************************************************************)
(* Big inputs made of one repeated part (C24): every list the formats      *)
(* have, every nesting, and every text that can be long.  A call's time    *)
(* and memory may only grow with the size: Sizes are the sizes (KiB) each  *)
(* shape is made in.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes

Lists == {"digests", "certs", "attrs", "sigs", "signers", "nodes", "stampSchemes", "stampAttrs", "p7certs", "p7infos", "p7attrs", "pairs"}
Shapes == {"rep:" \o l : l \in Lists}
  \cup {"files", "dirs", "mfSections", "mfLines", "mfLongLine", "mfContinuation", "mfEmptyLines", "mfDigests", "sfSections", "sfLines", "sfAlgorithms", "sfApkSigned", "signatureFiles", "blockFilesOnly",
        "samename", "comment", "commentMagic", "prefix", "padding", "emptyPairs", "unknownPairs", "bigPair", "frostEntries", "frostBytes",
        "p7nest", "p7nestIndef", "p7overlap", "p7flat", "p7flatIndef", "p7flatIndefEmpty", "p7segments", "p7oid", "p7int", "certExt", "certSans", "certNames", "certKey", "certDsaP", "certDsaQ", "certDsaPQ", "certOid", "certNest",
        "axmlTags", "axmlNest", "axmlAttrs", "axmlStrings", "axmlString", "axmlTableLen", "axmlStringLen", "bundleConfig", "stampFile", "lineageFlat", "contents", "verity"}

VARIABLES c
Init == c = [shape |-> "-", size |-> 0]
Next == c.size = 0 /\ \E s \in Shapes, n \in Sizes : c' = [shape |-> s, size |-> n]
Spec == Init /\ [][Next]_c
Emit == c.size # 0 => PrintT("@@" \o ToJson(c))
=============================================================================
