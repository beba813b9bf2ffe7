------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* Why the verity digest binds the data: the tree of page hashes, at a     *)
(* small scale (page of Pg symbols, Fan hashes to a page), over all data   *)
(* up to MaxLen symbols.  Built level by level, as verity.go does: pages   *)
(* are hashed, the hashes are the next level's data, zero padded, until    *)
(* one page is left, whose hash is the root; the data length is appended.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Pg, Fan, MaxLen, Sym

VARIABLES data, level, pc
vars == <<data, level, pc>>

Zero == <<0>>
Symbols == {<<s>> : s \in Sym}
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET s == SeqsUpTo(n - 1) IN s \cup {Append(x, y) : x \in {z \in s : Len(z) = n - 1}, y \in Symbols}

CeilDiv(a, b) == (a + b - 1) \div b
PageOf(d, k, sz, pad) == [i \in 1..sz |-> IF (k - 1) * sz + i <= Len(d) THEN d[(k - 1) * sz + i] ELSE pad]
Hash(x) == <<"h", x>>
Pad == <<0>>

(* one level: the hashes of the pages of the level below *)
Up(d, sz, pad) == [k \in 1..CeilDiv(Len(d), sz) |-> Hash(PageOf(d, k, sz, pad))]

Init == data \in SeqsUpTo(MaxLen) \ {<<>>} /\ level = <<>> /\ pc = "pages"
Pages == pc = "pages" /\ level' = Up(data, Pg, Zero) /\ pc' = "climb" /\ UNCHANGED data
Climb == pc = "climb" /\ Len(level) > Fan /\ level' = Up(level, Fan, Pad) /\ UNCHANGED <<data, pc>>
Root == pc = "climb" /\ Len(level) <= Fan /\ level' = <<Hash(PageOf(level, 1, Fan, Pad)), Len(data)>> /\ pc' = "done" /\ UNCHANGED data
Next == Pages \/ Climb \/ Root
Spec == Init /\ [][Next]_vars

(* the same as a function, to compare any two *)
RECURSIVE ClimbAll(_)
ClimbAll(l) == IF Len(l) <= Fan THEN Hash(PageOf(l, 1, Fan, Pad)) ELSE ClimbAll(Up(l, Fan, Pad))
Tree(d) == <<ClimbAll(Up(d, Pg, Zero)), Len(d)>>

(* all one-symbol changes, extensions and truncations of data give another digest *)
Neighbours == {[data EXCEPT ![i] = x] : i \in DOMAIN data, x \in Symbols} \cup {Append(data, x) : x \in Symbols}
              \cup ({SubSeq(data, 1, Len(data) - 1)} \ {<<>>})
Binds == pc = "done" => /\ level = Tree(data)
                        /\ \A d \in Neighbours : d # data => Tree(d) # level
=============================================================================
