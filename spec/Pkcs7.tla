------------------------------- MODULE Pkcs7 -------------------------------
(***************************************************************************)
(* Signed PKCS#7 messages (C27): the building interface as a state machine *)
(* whose histories make messages, what may become of a message on its way, *)
(* and what parsing and verifying it says.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS MaxEv,     \* calls of the building interface
          MaxTamper, \* changes to the finished message
          Mode,      \* "build": histories; "tamper": a few messages, every change; "foreign": made by others
          Mutant     \* "none", or a way to get verification wrong

(* --- certificates: who they name, whose key --- *)
CertTab == [rsaA |-> [ias |-> "rsaA", key |-> "rsaA"], rsaB |-> [ias |-> "rsaB", key |-> "rsaB"], leafRA |-> [ias |-> "leafRA", key |-> "rsaL"],
            fakeRA |-> [ias |-> "rsaA", key |-> "rsaB"], twinR |-> [ias |-> "twinR", key |-> "rsaB"], ecA |-> [ias |-> "ecA", key |-> "ecA"]]
Rsa(k) == k \in {"rsaA", "rsaB", "rsaL"}
None == "none"

(* contents: "E" is the empty one; a message without content reads as that *)
(* a signed attribute: type and value; the message digest's value is <<hash, content>> *)
At(t, v) == [t |-> t, v |-> v]
Md(h, c) == At("md", h \o ":" \o c)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(u, s[i])

(* a signature: by key, with hash h, over the attributes or, if there are none, the content *)
Over(attrs, c) == [attrs |-> attrs, c |-> IF attrs = <<>> THEN c ELSE "-"]
SameOver(o, p) == SameBag(o.attrs, p.attrs) /\ o.c = p.c
Sig(key, h, attrs, c) == [key |-> key, h |-> h, over |-> Over(attrs, c)]
SI(ias, da, dea, attrs, sig) == [ias |-> ias, da |-> da, dea |-> dea, attrs |-> attrs, sig |-> sig, unauth |-> FALSE]

(* --- the building interface --- *)
New(c) == [content |-> c, md |-> c, certs |-> <<>>, signers |-> <<>>]
Ev(op, cert, key, extra) == [op |-> op, cert |-> cert, key |-> key, extra |-> extra]
(* an event is an error exactly if Fails; then nothing changes *)
Fails(e) == e.op = "signer" /\ (~Rsa(e.key) \/ "bad" \in Range(e.extra))
Attrs(e, b) == <<At("ct", "data"), Md("sha1", b.md), At("time", "now")>> \o [i \in DOMAIN e.extra |-> At(e.extra[i], "v")]
Step(b, e) ==
  IF Fails(e) THEN b
  ELSE CASE e.op = "signer" ->
              [b EXCEPT !.certs = Append(@, e.cert),
                        !.signers = Append(@, SI(CertTab[e.cert].ias, "sha1", "sha1rsa", Attrs(e, b), Sig(e.key, "sha1", Attrs(e, b), "-")))]
         [] e.op = "cert" -> [b EXCEPT !.certs = Append(@, e.cert)]
         [] e.op = "detach" -> [b EXCEPT !.content = "E"]
         [] OTHER -> b
Events ==
  {Ev("signer", c, k, x) : c \in {"rsaA", "rsaB"}, k \in {"rsaA", "rsaB"}, x \in {<<>>, <<"x1">>}}
  \cup {Ev("signer", "leafRA", "rsaL", x) : x \in {<<"x2", "x1">>, <<"x1", "x1">>, <<"x1", "bad">>}}
  \cup {Ev("signer", "fakeRA", "rsaB", <<>>), Ev("signer", "twinR", "rsaB", <<>>), Ev("signer", "ecA", "ecA", <<>>), Ev("signer", "rsaA", "ecA", <<>>)}
  \cup {Ev("cert", c, "", <<>>) : c \in {"rsaA", "fakeRA", "twinR", "ecA"}}
  \cup {Ev("detach", "", "", <<>>), Ev("finish", "", "", <<>>)}

(* --- verification --- *)
HashOf(dea, da) ==
  CASE dea \in {"sha1rsa", "sha1ec"} -> "sha1" [] dea \in {"sha256rsa", "sha256ec"} -> "sha256" [] dea \in {"sha384rsa", "sha384ec"} -> "sha384"
    [] dea \in {"sha512rsa", "sha512ec"} -> "sha512" [] dea = "rsa" -> da [] OTHER -> None
IsRsaAlg(dea) == dea \in {"rsa", "sha1rsa", "sha256rsa", "sha384rsa", "sha512rsa"}
CertOf(m, s) == LET c == {i \in DOMAIN m.certs : CertTab[m.certs[i]].ias = s.ias} IN IF c = {} THEN None ELSE m.certs[Min(c)]
Digested(m, s) == \* the digest attribute that counts is the first
  LET d == {i \in DOMAIN s.attrs : s.attrs[i].t = "md"} IN
    \/ Mutant = "nodigest"
    \/ d # {} /\ s.attrs[Min(d)] = Md(s.da, m.content)
Ver1(m, s) ==
  LET c == CertOf(m, s) IN
    /\ s.da \in {"sha1", "sha256"}
    /\ s.attrs # <<>> => Digested(m, s)
    /\ c # None
    /\ HashOf(s.dea, s.da) = s.sig.h /\ IsRsaAlg(s.dea) = Rsa(CertTab[c].key)
    /\ s.sig.key = CertTab[c].key
    /\ SameOver(s.sig.over, Over(s.attrs, m.content)) \/ (Mutant = "noattrs" /\ s.attrs # <<>>)
Ver(m) ==
  /\ Mutant = "nosigners" \/ m.signers # <<>>
  /\ IF Mutant = "anysigner" THEN m.signers = <<>> \/ \E i \in DOMAIN m.signers : Ver1(m, m.signers[i])
     ELSE \A i \in DOMAIN m.signers : Ver1(m, m.signers[i])
OnlySigner(m) == IF Len(m.signers) = 1 THEN CertOf(m, m.signers[1]) ELSE None
(* reading one attribute of the first signer *)
Reads(m, t) == m.signers # <<>> /\ \E i \in DOMAIN m.signers[1].attrs : m.signers[1].attrs[i].t = t

(* --- what may become of a message --- *)
T(op, i, x) == [op |-> op, i |-> i, x |-> x]
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
NoSig == [key |-> None, h |-> None, over |-> Over(<<>>, "-")]
Without(s, t) == SelectSeq(s, LAMBDA a : a.t # t)
TamperAt(m, t) ==
  LET s == m.signers[t.i]
      set(v) == [m EXCEPT !.signers[t.i] = v] IN
  CASE t.op = "content" -> [m EXCEPT !.content = t.x]
    [] t.op = "attrval" -> set([s EXCEPT !.attrs = [k \in DOMAIN @ |-> IF @[k].t = t.x THEN At(t.x, "changed") ELSE @[k]]])
    [] t.op = "attrdrop" -> set([s EXCEPT !.attrs = Without(@, t.x)])
    [] t.op = "attradd" -> set([s EXCEPT !.attrs = Append(@, At(t.x, "v"))])
    [] t.op = "mdof" -> set([s EXCEPT !.attrs = [k \in DOMAIN @ |-> IF @[k].t = "md" THEN Md(s.da, t.x) ELSE @[k]]])
    [] t.op = "mdfirst" -> set([s EXCEPT !.attrs = <<Md(s.da, t.x)>> \o @])
    [] t.op = "attrrev" -> set([s EXCEPT !.attrs = Reverse(@)])
    [] t.op = "attrnone" -> set([s EXCEPT !.attrs = <<>>])
    [] t.op = "sigflip" -> set([s EXCEPT !.sig = NoSig])
    [] t.op = "signone" -> set([s EXCEPT !.sig = NoSig])
    [] t.op = "sigof" -> IF Len(m.signers) > 1 THEN set([s EXCEPT !.sig = m.signers[1 + (t.i % Len(m.signers))].sig]) ELSE m
    [] t.op = "da" -> set([s EXCEPT !.da = t.x])
    [] t.op = "dea" -> set([s EXCEPT !.dea = t.x])
    [] t.op = "ias" -> set([s EXCEPT !.ias = t.x])
    [] t.op = "unauth" -> set([s EXCEPT !.unauth = TRUE])
    [] t.op = "sigdrop" -> [m EXCEPT !.signers = DropAt(@, t.i)]
    [] t.op = "sigdup" -> [m EXCEPT !.signers = Append(@, s)]
    [] t.op = "sigsdrop" -> [m EXCEPT !.signers = <<>>]
    [] t.op = "sigrev" -> [m EXCEPT !.signers = Reverse(@)]
    [] t.op = "certdrop" -> [m EXCEPT !.certs = SelectSeq(@, LAMBDA c : c # t.x)]
    [] t.op = "certfirst" -> [m EXCEPT !.certs = <<t.x>> \o @]
    [] t.op = "certlast" -> [m EXCEPT !.certs = Append(@, t.x)]
    [] t.op = "certrev" -> [m EXCEPT !.certs = Reverse(@)]
Tampers(m) ==
  {T("content", 1, c) : c \in {"O", "E", "C"}}
  \cup {T(op, i, x) : op \in {"attrval", "attrdrop"}, x \in {"ct", "md", "time", "x1"}, i \in DOMAIN m.signers}
  \cup {T("attradd", i, x) : x \in {"x1", "x3"}, i \in DOMAIN m.signers}
  \cup {T(op, i, x) : op \in {"mdof", "mdfirst"}, x \in {"O", "E"}, i \in DOMAIN m.signers}
  \cup {T(op, i, "") : op \in {"attrrev", "attrnone", "sigflip", "signone", "sigof", "unauth", "sigdrop", "sigdup"}, i \in DOMAIN m.signers}
  \cup {T("unauth", i, "high") : i \in DOMAIN m.signers} \* with a value whose tag takes several bytes
  \cup {T("da", i, x) : x \in {"sha256", "unk", "md5"}, i \in DOMAIN m.signers}
  \cup {T("dea", i, x) : x \in {"rsa", "sha256rsa", "unk", "sha1ec"}, i \in DOMAIN m.signers}
  \cup {T("ias", i, x) : x \in {"rsaB", "twinR", "nobody"}, i \in DOMAIN m.signers}
  \cup {T(op, 1, "") : op \in {"sigrev", "sigsdrop", "certrev"}}
  \cup {T("certdrop", 1, c) : c \in {"rsaA", "rsaB", "leafRA"}}
  \cup {T(op, 1, c) : op \in {"certfirst", "certlast"}, c \in {"fakeRA", "twinR", "rsaB", "ecA"}}

Encodings == {"der", "indef", "indefodd", "indefeven", "long", "seg1", "seg3", "segindef", "segempty"}
(* no signed messages: another type named; an object, so many levels down, shorter than what is in it; an indefinite one without an end *)
Broken == {"typedata", "typeenv", "typeother", "cut0", "cut1", "cut2", "cut3", "cut4", "noeoc", "halfeoc", "primindef"}

----------------------------------------------------------------------------
VARIABLES ph,    \* "build", "done"
          c0, b, hist, m, tam, enc, made
vars == <<ph, c0, b, hist, m, tam, enc, made>>

Made(bb) == [content |-> bb.content, certs |-> bb.certs, signers |-> bb.signers]
S1(c, x) == Ev("signer", c, CertTab[c].key, x)
Starts ==
  IF Mode = "tamper" THEN
    {<<S1("rsaA", <<>>)>>, <<S1("rsaA", <<"x1">>), S1("rsaB", <<>>)>>, <<Ev("cert", "leafRA", "", <<>>), S1("rsaA", <<"x1">>)>>,
     <<S1("rsaB", <<>>), S1("rsaB", <<"x1">>)>>, <<S1("rsaA", <<>>), Ev("detach", "", "", <<>>)>>, <<Ev("cert", "rsaA", "", <<>>)>>}
  ELSE {<<>>}

(* messages made by others: any algorithms, no attributes *)
ForeignSI ==
  {SI(c, da, dea, at, Sig(CertTab[c].key, h, at, "C")) :
     c \in {"rsaA", "ecA"}, da \in {"sha1", "sha256", "sha512"}, h \in {"sha1", "sha256", "sha512"},
     dea \in {"rsa", "ec", "sha1rsa", "sha256rsa", "sha512rsa", "sha1ec", "sha256ec", "sha512ec", "unk"},
     at \in {<<>>} \cup {<<At("ct", "data"), Md(hh, "C")>> : hh \in {"sha1", "sha256"}}}

Init ==
  /\ c0 \in (IF Mode = "build" THEN {"E", "C"} ELSE {"C"}) \cup (IF Mode = "tamper" THEN {"E"} ELSE {})
  /\ hist \in Starts
  /\ b = FoldLeft(Step, New(c0), hist)
  /\ tam = <<>>
  /\ enc \in IF Mode = "build" THEN {"der"} ELSE IF Mode = "tamper" THEN Encodings \cup Broken ELSE {"der", "indef"}
  /\ IF Mode = "foreign" THEN ph = "done" /\ \E s \in ForeignSI : m = [content |-> "C", certs |-> <<"rsaA", "ecA">>, signers |-> <<s>>]
     ELSE IF Mode = "tamper" THEN ph = "done" /\ m = Made(b)
     ELSE ph = "build" /\ m = Made(b)
  /\ made = m
Call ==
  /\ ph = "build" /\ Len(hist) < MaxEv
  /\ \E e \in Events : hist' = Append(hist, e) /\ b' = Step(b, e) /\ m' = Made(b') /\ made' = m'
  /\ UNCHANGED <<ph, c0, tam, enc>>
Give == \* the detached content, right or wrong, is given for verification
  /\ ph = "build" /\ \E x \in {"C", "E", "O"} : m' = [m EXCEPT !.content = x] /\ tam' = <<T("give", 1, x)>>
  /\ ph' = "done" /\ UNCHANGED <<c0, b, hist, enc, made>>
Tamper ==
  /\ ph = "done" /\ Mode = "tamper" /\ Len(tam) < MaxTamper /\ enc \notin Broken
  /\ \E t \in Tampers(m) : m' = TamperAt(m, t) /\ tam' = Append(tam, t)
  /\ UNCHANGED <<ph, c0, b, hist, enc, made>>
Next == Call \/ Give \/ Tamper
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* what verification has to guarantee: every signer of a verified message is a statement which the holder of
   the certificate's key made about this very content *)
Stated(mm, s) ==
  LET k == CertTab[CertOf(mm, s)].key IN
    IF Mode = "foreign" THEN
      /\ s.sig.key = k
      /\ SameOver(s.sig.over, Over(s.attrs, mm.content))
      /\ s.attrs # <<>> => Count(s.attrs, Md(s.da, mm.content)) = 1
    ELSE \E i \in DOMAIN made.signers : LET o == made.signers[i] IN
           o.sig.key = k /\ SameBag(o.attrs, s.attrs) /\ Count(o.attrs, Md("sha1", mm.content)) = 1
Sound == Ver(m) => m.signers # <<>> /\ \A i \in DOMAIN m.signers : CertOf(m, m.signers[i]) # None /\ Stated(m, m.signers[i])
(* and an untouched message whose signers signed with their own keys verifies, however it is encoded *)
Own(e) == e.op = "signer" => (Fails(e) \/ CertTab[e.cert].key = e.key)
Proper == (\A i \in DOMAIN hist : Own(hist[i])) /\ \A i, j \in DOMAIN made.certs : CertTab[made.certs[i]].ias = CertTab[made.certs[j]].ias => made.certs[i] = made.certs[j]
Complete == (Mode # "foreign" /\ Proper /\ m.signers # <<>> /\ m = [made EXCEPT !.content = c0]) => Ver(m)
Changed == \* changes that always have to be noticed
  \E k \in DOMAIN tam : Len(tam) = 1 /\ made.signers # <<>>
     /\ \/ tam[k].op = "content" /\ m.content # c0
        \/ tam[k].op \in {"sigflip", "signone", "sigsdrop", "attrnone"}
        \/ tam[k].op \in {"attrval", "attrdrop", "attradd", "mdof", "mdfirst"} /\ m # made
        \/ tam[k].op = "certdrop" /\ m # made /\ \E i \in DOMAIN m.signers : m.signers[i].ias = tam[k].x
Noticed == Changed => ~Ver(m)

Emit == PrintT("@@" \o ToJson([c0 |-> c0, hist |-> [i \in DOMAIN hist |-> [e |-> hist[i], fails |-> Fails(hist[i])]], tam |-> tam, enc |-> enc, broken |-> enc \in Broken,
                               m |-> m, ver |-> Ver(m), only |-> OnlySigner(m), foreign |-> Mode = "foreign",
                               reads |-> [t \in {"ct", "md", "time", "x1", "x2", "zz"} |-> Reads(m, t)]]))
=============================================================================
