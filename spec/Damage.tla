------------------------------- MODULE Damage -------------------------------
(***************************************************************************)
(* Hostile files (C24): well made files with one or two parts changed.  A  *)
(* part is changed where it is made, so that everything outside of it      *)
(* (sizes, digests, signatures) is made for the changed part and the       *)
(* reader gets to it; parts "file", "sb", "eocd" are changed last.  What   *)
(* can be done to a part depends on how it is written: length-prefixed     *)
(* ("lp"), DER, text, or just bytes; where says which of the places in it, *)
(* in Places parts of its length.  The outcome of a call on such a file is *)
(* an error or a result; which one is not said here.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Randomization, Json

CONSTANTS Places, Second      \* Second: how many second changes to sample for each first one

Lp == {"digests", "certs", "attrs", "signedData", "sigs", "signer", "signers", "block", "attr", "nodes", "node", "stampSchemes", "stampAttrs", "stamp"}
Der == {"cert", "pub", "p7", "p7certs", "p7infos", "p7attrs"}
Text == {"mf", "sf"}
Raw == {"frost", "frostMeta", "axml", "local", "cd", "eocd", "sb", "pairs", "file"}
Parts == Lp \cup Der \cup Text \cup Raw

Lengths == {"zero", "one", "less", "more", "more4", "rest", "past", "max31", "neg", "max32", "neg4", "neg16"}
ForLp == {<<"len32", a>> : a \in Lengths}
ForRaw == {<<"len32", a>> : a \in Lengths \ {"rest", "past"}} \cup {<<"len16", a>> : a \in {"zero", "one", "less", "more", "max16", "neg16b"}}
          \cup {<<"len64", a>> : a \in {"zero", "max63", "neg", "max32", "more", "less"}}
ForDer == {<<"dlen", a>> : a \in {"zero", "less", "more", "indef", "long4max", "long4neg", "long8", "long0", "reserved", "nonmin", "nonmin5"}}
          \cup {<<"dtag", a>> : a \in {"zero", "prim", "cons", "high", "highlong", "int", "seq", "oct", "bool", "null", "utf8", "bmp", "oid", "utc", "gtime", "enum", "real", "ctx0", "ctx1"}}
          \cup {<<"dval", a>> : a \in {"empty", "ff", "zeros", "cut", "nest", "nestindef", "huge", "one", "high"}}
          \cup {<<"delem", a>> : a \in {"drop", "dup", "dup1000", "swap"}}
ForText == {<<"line", a>> : a \in {"drop", "dup", "join", "nocolon", "nospace", "empty", "huge", "cont", "contmany", "nul", "utf", "cr", "trunc", "novalue", "noname", "longname", "spaces", "dash"}}
ForAny == {<<"bytes", a>> : a \in {"flip", "cut", "cut1", "cut4", "drop1", "drop4", "zeros", "ones", "insert", "insertbig", "swap"}}
          \cup {<<"whole", a>> : a \in {"empty", "one", "zeros64k", "ones64k", "twice", "times100", "tail64k", "random"}}

Changes(p) == ForAny \cup (IF p \in Lp THEN ForLp ELSE IF p \in Der THEN ForDer ELSE IF p \in Text THEN ForText ELSE ForRaw)
Placed(c) == IF c[1] = "whole" THEN {0} ELSE 0..Places - 1

All == UNION {{[part |-> p, op |-> c[1], arg |-> c[2], at |-> w] : w \in Placed(c)} : <<p, c>> \in {<<q, d>> \in Parts \X UNION {Changes(x) : x \in Parts} : d \in Changes(q)}}

VARIABLES dmg
Init == dmg = <<>>
Next == \/ /\ dmg = <<>>
           /\ \E d \in All : dmg' = <<d>>
        \/ /\ Len(dmg) = 1 /\ Second > 0
           /\ \E d \in RandomSubset(Second, All) : dmg' = Append(dmg, d)
Spec == Init /\ [][Next]_dmg

Emit == dmg # <<>> => PrintT("@@" \o ToJson(dmg))
=============================================================================
