------------------------------ MODULE Envelope ------------------------------
(***************************************************************************)
(* Encrypted PKCS#7 messages (C28): how one is made (by the library or by  *)
(* others), what may become of it on its way, and what opening it with a   *)
(* certificate and a key says.  Plaintext is modelled byte by byte, so     *)
(* that padding and the malleability of block chaining are exact.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Bitwise, Json

CONSTANTS Mode,      \* "seal": by the library; "pad": by others, any padding; "damage": on its way
          MaxDamage,
          Mutant     \* "none", or a way to get opening wrong

(* --- certificates and keys --- *)
Certs == {"rsaA", "rsaB", "leafRA", "fakeRA", "twinR", "ecA"}
KeyOf == [rsaA |-> "rsaA", rsaB |-> "rsaB", leafRA |-> "rsaL", fakeRA |-> "rsaB", twinR |-> "rsaB", ecA |-> "ecA"]
IasOf == [rsaA |-> "rsaA", rsaB |-> "rsaB", leafRA |-> "leafRA", fakeRA |-> "rsaA", twinR |-> "twinR", ecA |-> "ecA"] \* fakeRA bears rsaA's name and number, twinR the number
Rsa(k) == k \in {"rsaA", "rsaB", "rsaL"}
Openers == {<<c, k>> : c \in Certs, k \in {"rsaA", "rsaB", "rsaL", "ecA"}}

(* --- ciphers --- *)
Cbc == {"des", "3des", "aes128", "aes256"}
BS(c) == IF c \in {"des", "3des"} THEN 8 ELSE 16
KeyLen(c) == CASE c = "des" -> 8 [] c = "3des" -> 24 [] c = "aes256" -> 32 [] OTHER -> 16

(* --- bytes; Garb is a byte nobody can tell --- *)
Garb == -1
Rep(n, x) == [i \in 1 .. n |-> x]
Bytes(kind, n, bs) == \* contents: nothing like padding; all like padding; zeros
  [i \in 1 .. n |-> CASE kind = "x" -> 100 + (i % 90) [] kind = "pad" -> bs [] kind = "one" -> 1 [] OTHER -> 0]
Pad(c, bs) == c \o Rep(bs - (Len(c) % bs), bs - (Len(c) % bs))
(* what remains when padding is taken off *)
Unpad(p, bs) ==
  LET l == p[Len(p)] IN
    IF p = <<>> THEN "error"
    ELSE IF Garb \in {p[i] : i \in Max({1, Len(p) - bs + 1}) .. Len(p)} THEN "any"
    ELSE IF (Mutant # "zero" /\ l = 0) \/ (Mutant # "over" /\ l > bs) \/ l > Len(p) THEN "error"
    ELSE IF Mutant # "last" /\ \E i \in Len(p) - l + 1 .. Len(p) : p[i] # l THEN "error"
    ELSE "content"
Content(p) == SubSeq(p, 1, Len(p) - p[Len(p)])

(* --- messages --- *)
(* a recipient: whom it names, whose key opens it, what it holds *)
Rc(ias, to, what) == [ias |-> ias, to |-> to, what |-> what]
Recips(cs) == [i \in DOMAIN cs |-> Rc(IasOf[cs[i]], KeyOf[cs[i]], "key")]
Msg(cipher, recips, plain) ==
  [cipher |-> cipher, recips |-> recips, plain |-> plain, intact |-> TRUE, iv |-> "ok", rest |-> 0, oid |-> cipher]

(* --- opening: "error", "any" (nobody can tell, but no crash), or "content" --- *)
Find(m, cert) ==
  LET s == {i \in DOMAIN m.recips : m.recips[i].ias = IasOf[cert]} IN
    IF Mutant = "first" /\ m.recips # <<>> THEN 1 ELSE IF s = {} THEN 0 ELSE Min(s)
Open(m, cert, key) ==
  LET i == Find(m, cert) IN
    IF i = 0 \/ ~Rsa(key) THEN "error"
    ELSE LET r == m.recips[i] IN
      IF (r.to # key /\ Mutant # "anykey") \/ r.what \in {"short", "broken"} THEN "error"
      ELSE IF m.oid # m.cipher THEN "error"
      ELSE IF m.cipher = "gcm" THEN
        (IF (m.intact \/ Mutant = "noauth") /\ m.iv = "ok" /\ r.what = "key" THEN "content" ELSE "error")
      ELSE IF m.iv # "ok" \/ m.rest # 0 \/ m.plain = <<>> THEN "error"
      ELSE IF r.what = "other" THEN "any"
      ELSE Unpad(m.plain, BS(m.cipher))
Text(m) == IF m.cipher = "gcm" THEN m.plain ELSE Content(m.plain)

(* --- on its way --- *)
D(op, i, x) == [op |-> op, i |-> i, x |-> x, w |-> ""]
W(op, i, w) == [op |-> op, i |-> i, x |-> 0, w |-> w]
Masks == {1, 2, 3, 9, 128}
NBlocks(m) == Len(m.plain) \div BS(m.cipher)
Xor1(p, i, x) == IF p[i] = Garb THEN p ELSE [p EXCEPT ![i] = p[i] ^^ x]
Garble(p, b, bs) == [i \in DOMAIN p |-> IF (i - 1) \div bs = b - 1 THEN Garb ELSE p[i]]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* dropping a block of ciphertext: the block after it is garbled, but intact if the dropped one took the place of the IV *)
DropBlock(p, b, bs, iv) ==
  LET q == SubSeq(p, 1, (b - 1) * bs) \o SubSeq(p, b * bs + 1, Len(p)) IN IF iv \/ (b - 1) * bs = Len(q) THEN q ELSE Garble(q, b, bs)
Do(m, d) ==
  LET bs == BS(m.cipher) IN
  CASE d.op = "ctflip" -> \* one byte of the ciphertext, x flipped
         IF m.cipher = "gcm" THEN [m EXCEPT !.intact = FALSE]
         ELSE LET b == (d.i - 1) \div bs + 1
                  g == Garble(m.plain, b, bs) IN [m EXCEPT !.plain = IF d.i + bs <= Len(g) THEN Xor1(g, d.i + bs, d.x) ELSE g]
    [] d.op = "ivflip" -> IF m.cipher = "gcm" THEN [m EXCEPT !.intact = FALSE] ELSE [m EXCEPT !.plain = Xor1(@, d.i, d.x)]
    [] d.op \in {"ivshort", "ivlong", "ivnone"} -> [m EXCEPT !.iv = d.op]
    [] d.op = "drop" -> [m EXCEPT !.plain = DropBlock(@, d.i, bs, FALSE)]
    [] d.op = "dropiv" -> [m EXCEPT !.plain = DropBlock(@, 1, bs, TRUE)]
    [] d.op = "cut" -> IF m.cipher = "gcm" THEN [m EXCEPT !.intact = FALSE] ELSE [m EXCEPT !.rest = (@ + d.x) % bs]
    [] d.op = "empty" -> [m EXCEPT !.intact = FALSE, !.plain = <<>>]
    [] d.op = "more" -> IF m.cipher = "gcm" THEN [m EXCEPT !.intact = FALSE] ELSE [m EXCEPT !.plain = @ \o Rep(bs, Garb)]
    [] d.op \in {"tagflip", "icv", "tagcut"} -> [m EXCEPT !.intact = FALSE]
    [] d.op = "rcdrop" -> [m EXCEPT !.recips = DropAt(@, d.i)]
    [] d.op = "rcrev" -> [m EXCEPT !.recips = Reverse(@)]
    [] d.op = "rcwhat" -> [m EXCEPT !.recips[d.i].what = d.w]
    [] d.op = "rcias" -> [m EXCEPT !.recips[d.i].ias = d.w]
    [] d.op = "oid" -> [m EXCEPT !.oid = d.w]
Damages(m) ==
  {D("rcdrop", i, 0) : i \in DOMAIN m.recips} \cup {D("rcrev", 1, 0)}
  \cup {W("rcwhat", i, x) : i \in DOMAIN m.recips, x \in {"other", "short", "broken"}}
  \cup {W("rcias", i, x) : i \in DOMAIN m.recips, x \in {"rsaA", "rsaB", "leafRA", "twinR", "ecA"}}
  \cup {W("oid", 1, "unknown"), D("empty", 1, 0)} \cup {D(op, 1, 0) : op \in {"ivshort", "ivlong", "ivnone"}}
  \cup (IF m.cipher = "gcm" THEN
          {D("ctflip", i, x) : i \in DOMAIN m.plain, x \in {1, 128}} \cup {D("ivflip", i, 1) : i \in {1, 12}} \cup {D("more", 1, 0)}
          \cup {D("cut", 1, x) : x \in {y \in {1, 8} : y <= Len(m.plain)}} \cup {D("tagflip", i, x) : i \in 1 .. 16, x \in {1, 128}} \cup {D("icv", 1, x) : x \in {0, 12, 15, 17}}
          \cup {D("tagcut", 1, x) : x \in {1, 4, 16}}
        ELSE
          {D("ctflip", i, x) : i \in DOMAIN m.plain, x \in Masks} \cup {D("ivflip", i, x) : i \in 1 .. BS(m.cipher), x \in Masks}
          \cup {D("drop", b, 0) : b \in 1 .. NBlocks(m)} \cup {D("dropiv", 1, 0), D("more", 1, 0)}
          \cup {D("cut", 1, x) : x \in {1, 7, BS(m.cipher) - 1}})
Possible(m, d) ==
  /\ m.iv # "ok" => d.op \notin {"ivflip", "ivshort", "ivlong", "ivnone", "dropiv"}
  /\ m.rest # 0 => d.op \notin {"ctflip", "ivflip", "drop", "dropiv", "cut", "more", "empty"}
  /\ m.plain = <<>> => d.op \notin {"ivflip", "dropiv", "cut", "drop", "tagflip", "tagcut"}
  /\ ~m.intact => d.op \notin {"ctflip", "cut", "more", "empty", "tagflip", "tagcut", "icv"}

(* how it is written: the encrypted content in one piece, or in several, or in pieces of pieces *)
Encodings == {"der", "prim", "seg1", "seg3", "segempty", "indef", "segindef", "long", "indefodd"}

----------------------------------------------------------------------------
VARIABLES m, made, how, dam, enc
vars == <<m, made, how, dam, enc>>

SealOf == {<<>>, <<"rsaA">>, <<"leafRA">>, <<"rsaA", "rsaB">>, <<"rsaB", "leafRA", "rsaA">>, <<"rsaA", "rsaA">>, <<"rsaB", "fakeRA">>, <<"twinR", "rsaA">>, <<"rsaA", "leafRA", "twinR">>, <<"ecA">>, <<"rsaA", "ecA">>}
Lens == 0 .. 18 \cup {23, 24, 25, 31, 32, 33}
How(by, cipher, cs, kind, n, p, bad) == [by |-> by, cipher |-> cipher, certs |-> cs, kind |-> kind, n |-> n, p |-> p, bad |-> bad]
(* the library makes no message for certificates without RSA keys *)
Fails == how.by = "library" /\ \E i \in DOMAIN how.certs : ~Rsa(KeyOf[how.certs[i]])
(* others: n blocks, the last p bytes of which are p, except the one `bad` bytes from the end *)
Foreign(cipher, kind, n, p, bad) ==
  LET bs == BS(cipher)
      c == Bytes(kind, n * bs, bs)
      q == [i \in DOMAIN c |-> IF i > Len(c) - p THEN p ELSE c[i]] IN
    IF n = 0 THEN <<>> ELSE IF p = 0 THEN [q EXCEPT ![Len(q)] = 0] ELSE IF bad = 0 THEN q ELSE [q EXCEPT ![Len(q) - bad + 1] = p ^^ 1]
Pads(bs) == 0 .. bs + 1 \cup {2 * bs, 127, 128, 255}

Init ==
  /\ dam = <<>>
  /\ \/ /\ Mode = "seal"
        /\ \E c \in {"des", "gcm"}, cs \in SealOf, kind \in {"x", "pad", "one", "zero"}, n \in Lens :
             /\ (kind # "x" => cs = <<"rsaA">>)
             /\ how = How("library", c, cs, kind, n, 0, 0)
             /\ m = Msg(c, IF Fails THEN <<>> ELSE Recips(cs), IF c = "gcm" THEN Bytes(kind, n, 16) ELSE Pad(Bytes(kind, n, 8), 8))
        /\ enc \in IF how.n \in {0, 7, 8, 17} THEN Encodings ELSE {"der"}
     \/ /\ Mode = "pad"
        /\ \E c \in Cbc, kind \in {"x", "pad", "one", "zero"}, n \in 0 .. 2 : \E p \in Pads(BS(c)) : \E bad \in 0 .. Min({p, n * BS(c)}) :
             /\ (n = 0 => p = 0 /\ kind = "x")
             /\ how = How("others", c, <<"rsaA">>, kind, n, p, bad)
             /\ m = Msg(c, Recips(<<"rsaA">>), Foreign(c, kind, n, p, bad))
        /\ enc \in IF how.n = 2 /\ how.p \in {1, BS(how.cipher)} /\ how.bad = 0 THEN Encodings ELSE {"prim"}
     \/ /\ Mode = "damage"
        /\ \E c \in Cbc \cup {"gcm"}, cs \in {<<"rsaA">>, <<"twinR", "leafRA", "rsaA">>}, kind \in {"x", "one"}, n \in {0, 7, 16} :
             /\ how = How("others", c, cs, kind, n, -1, 0)
             /\ m = Msg(c, Recips(cs), IF c = "gcm" THEN Bytes(kind, n, 16) ELSE Pad(Bytes(kind, n, BS(c)), BS(c)))
        /\ enc \in {"seg1", "prim"}
  /\ made = m

Damage ==
  /\ Mode = "damage" /\ Len(dam) < MaxDamage
  /\ \E d \in Damages(m) : Possible(m, d) /\ m' = Do(m, d) /\ dam' = Append(dam, d)
  /\ UNCHANGED <<made, how, enc>>
Next == Damage
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* the properties *)
For(mm, key) == \E i \in DOMAIN mm.recips : mm.recips[i].to = key
RoundTrip ==
  (dam = <<>> /\ how.by = "library" /\ ~Fails) =>
    \A i \in DOMAIN how.certs : LET c == how.certs[i] IN
      (\A j \in DOMAIN how.certs : IasOf[how.certs[j]] = IasOf[c] => how.certs[j] = c)
        => Open(m, c, KeyOf[c]) = "content" /\ Text(m) = Bytes(how.kind, how.n, BS(m.cipher))
OnlyRecipients == \A o \in Openers : ~For(m, o[2]) => Open(m, o[1], o[2]) = "error"
NotNamed == \A o \in Openers : (\A i \in DOMAIN m.recips : m.recips[i].ias # IasOf[o[1]]) => Open(m, o[1], o[2]) = "error"
Authentic == m.cipher = "gcm" => \A o \in Openers : Open(m, o[1], o[2]) = "content" => Text(m) = Text(made) /\ m.intact
Padded == \* what comes out, padded, is what was in there
  m.cipher # "gcm" => \A o \in Openers : Open(m, o[1], o[2]) = "content" =>
     LET bs == BS(m.cipher) IN Pad(Text(m), bs) = m.plain

Outcomes == {[cert |-> o[1], key |-> o[2], out |-> Open(m, o[1], o[2])] : o \in Openers}
Emit == PrintT("@@" \o ToJson([how |-> how, fails |-> Fails, dam |-> dam, enc |-> enc,
          opens |-> SetToSeq({o \in Outcomes : o.out # "error"}),
          text |-> IF \E o \in Outcomes : o.out = "content" THEN Text(m) ELSE <<>>]))
=============================================================================
