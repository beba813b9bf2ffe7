------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* What the content digests of a signing block bind (C01).                 *)
(*                                                                         *)
(* A file is three protected sections - before the block, central          *)
(* directory, end record - with the block in between.  A section is a      *)
(* sequence of runs [s, o, n]: n bytes of the content named s from offset  *)
(* o on; sizes are real byte counts.  Digests are symbolic (ideal hash):   *)
(* the chunked digest is the list of the 1 MiB chunks of each section, the *)
(* verity digest the list of 4096-byte pages of the concatenation, zero    *)
(* padded, and its length.  Tamper actions change the file after it was    *)
(* signed; a file whose structure survives is accepted iff its digest is   *)
(* the signed one.  Invariant Binds: nothing protected may differ then.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json

CONSTANT Tier

MiB == 1048576
Page == 4096

Run(s, o, n) == [s |-> s, o |-> o, n |-> n]
Whole(s, n) == IF n = 0 THEN <<>> ELSE <<Run(s, 0, n)>>
Size(rs) == FoldLeft(LAMBDA acc, r : acc + r.n, 0, rs)

(* merge neighbours that continue each other: a canonical form of the bytes *)
Canon(rs) ==
  FoldLeft(LAMBDA acc, r :
      IF r.n = 0 THEN acc
      ELSE IF acc # <<>> /\ acc[Len(acc)].s = r.s /\ (acc[Len(acc)].o + acc[Len(acc)].n = r.o \/ r.s = "0")
      THEN [acc EXCEPT ![Len(acc)].n = @ + r.n] ELSE Append(acc, IF r.s = "0" THEN [r EXCEPT !.o = 0] ELSE r), <<>>, rs)

(* bytes [a, b) of a section *)
Slice(rs, a, b) ==
  LET step(acc, r) ==
        LET lo == IF a > acc.p THEN a - acc.p ELSE 0
            hi == IF b < acc.p + r.n THEN b - acc.p ELSE r.n
        IN [p |-> acc.p + r.n, out |-> IF lo < hi THEN Append(acc.out, Run(r.s, r.o + lo, hi - lo)) ELSE acc.out]
  IN Canon(FoldLeft(step, [p |-> 0, out |-> <<>>], rs).out)

CeilDiv(a, b) == (a + b - 1) \div b
Chunks(rs, sz) == LET n == Size(rs) IN [k \in 1..CeilDiv(n, sz) |-> Slice(rs, (k-1) * sz, IF k * sz < n THEN k * sz ELSE n)]

(* --- the two kinds of digest, as terms --- *)
ChunkDigest(f) == Chunks(f.local, MiB) \o Chunks(f.cd, MiB) \o Chunks(f.eocd, MiB)

All(f) == f.local \o f.cd \o f.eocd
VerityDigest(f) ==
  LET n == Size(All(f))
      padded == All(f) \o (IF n % Page = 0 THEN <<>> ELSE <<Run("0", 0, Page - (n % Page))>>)
  IN [data |-> Canon(padded), len |-> n]   \* the tree over the pages: its shape depends on len only (see MerkleTree)

Digest(f, alg) == IF alg = "verity" THEN VerityDigest(f) ELSE ChunkDigest(f)

(* --- tampering --- *)
Sub(rs, a, b) == Slice(rs, a, b)
Flip(rs, p) == Sub(rs, 0, p) \o <<Run("evil", p, 1)>> \o Sub(rs, p + 1, Size(rs))
Del(rs, p, n) == Sub(rs, 0, p) \o Sub(rs, p + n, Size(rs))
InsZ(rs, p, n) == Sub(rs, 0, p) \o <<Run("0", 0, n)>> \o Sub(rs, p, Size(rs))
Exch(rs, p, q, n) == Sub(rs, 0, p) \o Sub(rs, q, q + n) \o Sub(rs, p + n, q) \o Sub(rs, p, p + n) \o Sub(rs, q + n, Size(rs))

Near(x, n) == {y \in {x - 1, x, x + 1} : 0 <= y /\ y < n}
Positions(n, unit) == Near(0, n) \cup {p \in {n - 1, n \div 2} : 0 <= p /\ p < n} \cup UNION {Near(k * unit, n) : k \in 1..(n \div unit)}
FewPositions(n) == {p \in {0, n \div 3, n - 1} : 0 <= p /\ p < n}

(* op: [t, sec, p, q, n] *)
Op(t, sec, p, q, n) == [t |-> t, sec |-> sec, p |-> p, q |-> q, n |-> n]
Secs == {"local", "cd", "eocd"}
PosOf(f, alg, sec) ==
  LET n == Size(f[sec]) IN
    IF sec = "eocd" THEN {p \in {4, 8, 10, 12, 15, 20, 22, n - 1} : p < n}
    ELSE IF alg = "verity" THEN FewPositions(n) \cup {p \in {Page - 1, Page, 2 * Page - 1, 128 * Page - 1, 128 * Page, n - Page} : 0 <= p /\ p < n}
    ELSE Positions(n, MiB)

Ops(f, alg) ==
  {Op("none", "local", 0, 0, 0)}
  \cup UNION {{Op("flip", sec, p, 0, 1) : p \in PosOf(f, alg, sec)} : sec \in Secs}
  \cup {Op("del", "local", p, 0, n) : p \in FewPositions(Size(f.local)), n \in {1}}
  \cup {Op("ins", "local", p, 0, n) : p \in {0, Size(f.local) \div 2, Size(f.local)}, n \in {1, Page}}
  \cup {Op("del", "local", 0, 0, u) : u \in {x \in {Page, MiB} : x < Size(f.local)}}
  \cup {Op("exch", "local", k * u, (k + 1) * u, u) : u \in {x \in {Page, MiB} : 2 * x <= Size(f.local)}, k \in {0}}
  \cup {Op("exch", "cd", 0, u, u) : u \in {x \in {MiB} : 2 * x <= Size(f.cd)}}
  \cup {Op(t, "local", 0, 0, n) : t \in {"shift", "unshift"}, n \in {x \in {1, Page} : x < Size(f.local) /\ x < Size(f.cd)}}
  \cup {Op("comgrow", "eocd", 0, 0, n) : n \in {x \in {1, 23} : Size(f.eocd) + x <= 65535 + 22}}
  \cup {Op("block", "local", 0, 0, 0)}           \* padding of the signing block itself: not protected
  \cup {Op("growblock", "local", 0, 0, n) : n \in {1, Page}}

Apply(f, op) ==
  CASE op.t = "flip" -> [f EXCEPT ![op.sec] = Flip(@, op.p)]
    [] op.t = "del" -> [f EXCEPT ![op.sec] = Del(@, op.p, op.n)]
    [] op.t = "ins" -> [f EXCEPT ![op.sec] = InsZ(@, op.p, op.n)]
    [] op.t = "exch" -> [f EXCEPT ![op.sec] = Exch(@, op.p, op.q, op.n)]
    [] op.t = "shift" ->  \* the last n bytes before the block moved to the start of the directory, its size adjusted
         [f EXCEPT !.local = Sub(@, 0, Size(@) - op.n), !.cd = Sub(f.local, Size(f.local) - op.n, Size(f.local)) \o @, !.eocd = Flip(@, 12)]
    [] op.t = "unshift" -> \* and the first n bytes of the directory moved before the block
         [f EXCEPT !.cd = Sub(@, op.n, Size(@)), !.local = @ \o Sub(f.cd, 0, op.n), !.eocd = Flip(@, 12)]
    [] op.t = "comgrow" -> [f EXCEPT !.eocd = Flip(@, 20) \o <<Run("0", 0, op.n)>>]
    [] OTHER -> f

(* Flipping these end record fields (or its magic) leaves nothing to verify *)
Structural(op) == op.t = "flip" /\ op.sec = "eocd" /\ op.p \in 0..3 \cup 12..21
(* verity needs the block at a page boundary *)
Aligned(f, alg) == alg # "verity" \/ Size(f.local) % Page = 0

Accepts(f0, f, op, alg) == ~Structural(op) /\ Aligned(f, alg) /\ Digest(f, alg) = Digest(f0, alg)
SameBytes(f0, f) == \A s \in Secs : Canon(f[s]) = Canon(f0[s])

----------------------------------------------------------------------------
File(l, c, com) == [local |-> Whole("L", l), cd |-> Whole("C", c), eocd |-> Whole("E", 22 + com)]
SmallL == 3000
SmallC == 100

Layouts ==
  {[alg |-> a, l |-> x[1], c |-> x[2], com |-> x[3]] :
     a \in {"c256", "c512"},
     x \in {<<SmallL, SmallC, 0>>, <<MiB - 1, SmallC, 0>>, <<MiB, SmallC, 1>>, <<MiB + 1, SmallC, 0>>, <<2 * MiB - 1, SmallC, 65535>>, <<2 * MiB, SmallC, 0>>, <<2 * MiB + 1, SmallC, 7>>,
            <<SmallL * 20, MiB - 1, 0>>, <<SmallL * 20, MiB, 1>>, <<SmallL * 20, MiB + 1, 65535>>, <<2 * MiB, 2 * MiB, 22>>}}
  \cup {[alg |-> "verity", l |-> x[1] * Page, c |-> x[2], com |-> x[3]] :
     x \in {<<1, SmallC, 0>>, <<1, Page - 22, 0>>, <<1, Page - 21, 0>>, <<2, Page - 23, 0>>, <<2, SmallC, 65535>>, <<126, Page - 22, 0>>, <<127, Page - 22, 0>>, <<127, Page - 21, 0>>, <<127, Page - 23, 0>>, <<128, SmallC, 0>>,
            <<129, SmallC, 1>>, <<255, SmallC, 0>>, <<255, Page - 22, 0>>, <<256, SmallC, 0>>, <<256, MiB + 5, 65535>>, <<383, SmallC, 0>>, <<384, SmallC, 0>>}}
  (* a block that is not at a page boundary *)
  \cup {[alg |-> "verity", l |-> x[1] * Page + x[2], c |-> SmallC, com |-> 0] : x \in {<<1, -1>>, <<1, 1>>, <<1, 2>>, <<1, 512>>, <<2, 2048>>, <<128, 1>>, <<128, -1>>}}
  \cup {[alg |-> "multi", l |-> x[1] * Page, c |-> x[2], com |-> x[3]] : x \in {<<1, SmallC, 0>>, <<257, MiB, 3>>}}
  \cup (IF Tier = "thorough" THEN
     {[alg |-> a, l |-> k * MiB + d, c |-> SmallC + e, com |-> com] : a \in {"c256", "c512"}, k \in {1, 2, 3, 5}, d \in {-1, 0, 1, 4095, 4096}, e \in {0, 1}, com \in {0, 255, 65534}}
     \cup {[alg |-> "verity", l |-> k * Page, c |-> e, com |-> com] : k \in {1, 2, 3, 63, 64, 65, 126, 127, 128, 129, 130, 254, 255, 256, 257, 511, 512, 513, 16382, 16383, 16384, 16385}, e \in {SmallC, Page - 23, Page - 22, Page - 21}, com \in {0, 1}}
   ELSE {})

DigAlgs(alg) == CASE alg = "multi" -> <<"c256", "c512", "verity">> [] OTHER -> <<alg>>

VARIABLES lay, op, res
vars == <<lay, op, res>>

Init == lay \in Layouts /\ op = Op("unsigned", "local", 0, 0, 0) /\ res = "none"

Tamper ==
  /\ op.t = "unsigned"
  /\ LET f0 == File(lay.l, lay.c, lay.com) IN
     \E o \in Ops(f0, IF lay.alg = "multi" THEN "verity" ELSE lay.alg) :
       /\ op' = o
       /\ res' = IF \A i \in DOMAIN DigAlgs(lay.alg) : Accepts(f0, Apply(f0, o), o, DigAlgs(lay.alg)[i]) THEN "acc" ELSE "rej"
  /\ UNCHANGED lay

Next == Tamper
Spec == Init /\ [][Next]_vars

(* the property: whatever is accepted is what was signed, and what was signed is accepted *)
Holds ==
  res # "none" =>
    LET f0 == File(lay.l, lay.c, lay.com) IN
      /\ res = "acc" => SameBytes(f0, Apply(f0, op))
      /\ (op.t \in {"none", "block", "growblock"} /\ \A i \in DOMAIN DigAlgs(lay.alg) : Aligned(f0, DigAlgs(lay.alg)[i])) => res = "acc"

Emit == res # "none" => PrintT("@@" \o ToJson([lay |-> lay, op |-> op, res |-> res]))
=============================================================================
