------------------------------ MODULE SchemeV1 ------------------------------
(***************************************************************************)
(* JAR (v1) signature: MANIFEST.MF, signature files and PKCS#7 blocks.     *)
(***************************************************************************)
EXTENDS Base

(* --- the archive as the v1 verifier sees it --- *)
StampFile(apk) == IF apk.stf = "absent" THEN <<>> ELSE <<[n |-> "stamp-cert-sha256", dir |-> FALSE]>>
AmFile(apk) == IF apk.am.st = "absent" THEN <<>> ELSE <<[n |-> "AndroidManifest.xml", dir |-> FALSE]>>
(* Entries are found by their path, which spells one place in several ways. *)
Clean(n) == CASE n \in {"./classes.dex", "assets/../classes.dex", "META-INF/../classes.dex", ".//classes.dex"} -> "classes.dex"
              [] n \in {"./res/x.txt", "res//x.txt", "res/./x.txt", "res/x.txt/"} -> "res/x.txt"
              [] n \in {"./AndroidManifest.xml"} -> "AndroidManifest.xml"
              [] n \in {"./META-INF/note.txt", "META-INF//note.txt"} -> "META-INF/note.txt"
              [] OTHER -> n
LateFile(apk) == IF apk.zip.late = "none" THEN <<>> ELSE <<[n |-> Clean(apk.zip.late), dir |-> apk.zip.late \in {"res/x.txt/"}]>>
BaseFiles(apk) == [i \in DOMAIN apk.files |-> [n |-> Clean(apk.files[i].n), dir |-> apk.files[i].dir]] \o AmFile(apk) \o StampFile(apk) \o LateFile(apk)

(* names like those of signature files, which they are not *)
NearMisses == {"META-INF/CERT.SPEC", "META-INF/CERT.XRSA", "META-INF/CERT.RSAX", "META-INF/CERTRSA", "META-INF/CERT.SFX", "META-INF/CERT.XSF", "META-INF/sub/MANIFEST.MF", "META-INF/MANIFEST.MFX", "META-INF/MANIFEST.MF.bak"}
InMeta(n) == n \in {"META-INF/note.txt", "META-INF/services/x", "META-INF/extra.bin", "META-INF/sub/y"} \cup NearMisses

(* names of META-INF files the signer adds *)
V1Files(v1) == {"META-INF/" \o v1.signers[i].base \o "." \o v1.signers[i].ext : i \in DOMAIN v1.signers}
          \cup {"META-INF/" \o v1.signers[i].base \o ".SF" : i \in {j \in DOMAIN v1.signers : v1.signers[j].sf.st = "ok"}}
          \cup (IF v1.mf.st = "ok" THEN {"META-INF/MANIFEST.MF"} ELSE {})

(* A file of a path that an entry before it has: the archive reader only gives the first of them, so nobody looks at this one. *)
Hidden(apk) ==
  LET fs == BaseFiles(apk)
  IN \E j \in DOMAIN fs : /\ ~fs[j].dir /\ ~InMeta(fs[j].n)
                          /\ \E i \in 1..(j-1) : fs[i].n = fs[j].n

Names(apk) == {BaseFiles(apk)[i].n : i \in DOMAIN BaseFiles(apk)} \cup (IF apk.v1.st = "ok" THEN V1Files(apk.v1) ELSE {})

(* required files, in archive order *)
Required(apk) ==
  LET fs == SelectSeq(BaseFiles(apk), LAMBDA f : ~f.dir /\ ~InMeta(f.n))
      ns == [i \in DOMAIN fs |-> fs[i].n]
  IN SelectSeq([i \in DOMAIN ns |-> IF \E j \in 1..(i-1) : ns[j] = ns[i] THEN "" ELSE ns[i]], LAMBDA n : n # "")

(* --- digests of a section --- *)
StrongFirst == <<"sha-512", "sha-384", "sha-256", "sha1">>
HasDs(ds, a) == \E i \in DOMAIN ds : ds[i].a = a
DsVal(ds, a) == ds[LastIdx(ds, LAMBDA d : d.a = a)].v

Selected(ds, da, min, max) ==
  LET toks == IF da = <<>> THEN <<"sha", "sha1">> ELSE da
      old == SelectSeq(toks, LAMBDA t : HasDs(ds, t) /\ (min >= 9 \/ t \notin {"sha-384", "sha-512"}))
      new == SelectSeq(StrongFirst, LAMBDA t : HasDs(ds, t))
  IN (IF min < LevelJBMR2 THEN old ELSE <<>>) \o (IF max >= LevelJBMR2 /\ new # <<>> THEN <<new[1]>> ELSE <<>>)

(* ok | unknown (nothing usable) | bad; the first digest that is not ok decides *)
OneDigest(ds, a, target) ==
  IF DsVal(ds, a) = "b64" THEN "bad"
  ELSE IF a \notin Range(StrongFirst) THEN "unknown"
  ELSE IF ~target \/ DsVal(ds, a) # "good" THEN "bad" ELSE "ok"

EntryCheck(ds, da, min, max, target) ==
  LET sel == Selected(ds, da, min, max)
  IN IF sel = <<>> THEN "unknown"
     ELSE FoldLeft(LAMBDA acc, a : IF acc # "ok" THEN acc ELSE OneDigest(ds, a, target), "ok", sel)

----------------------------------------------------------------------------
(* --- loading --- *)
HasMore(v1) == v1.mf.ents # <<>>
MfParses(mf) ==
  CASE mf.bad = "none" -> TRUE
    [] mf.bad \in {"unnamed", "dupsec", "nosep"} -> mf.ents = <<>>
    [] OTHER -> FALSE
SfParses(sf) ==
  CASE sf.bad \in {"none", "dupsec"} -> TRUE
    [] sf.bad = "unnamed" -> sf.ents = <<>>
    [] sf.bad = "nosep" -> sf.ents = <<>> /\ ~sf.hasxa /\ sf.da = <<>> /\ sf.mainds = <<>> /\ sf.whole = <<>>
    [] OTHER -> FALSE

(* The signature file a signer's block goes with: the first of that path in the archive *)
SfIdx(v1, i) == FirstIdx(v1.signers, LAMBDA s : s.base = v1.signers[i].base /\ s.sf.st = "ok")
(* What the builder had the block sign: the latest signature file of that path so far *)
SignedSfIdx(v1, i) == LastIdx(SubSeq(v1.signers, 1, i), LAMBDA s : s.base = v1.signers[i].base /\ s.sf.st = "ok")

SfOf(v1, i) == v1.signers[SfIdx(v1, i)].sf

(* Signature blocks taken up, in archive order: one per signature file, the first. *)
Taken(v1) ==
  SelectSeq([i \in DOMAIN v1.signers |-> i],
    LAMBDA i : SfIdx(v1, i) # 0 /\ ~\E j \in 1..(i-1) : v1.signers[j].base = v1.signers[i].base /\ SfParses(SfOf(v1, i)))

LoadOK(v1) ==
  /\ v1.st = "ok"
  /\ v1.mf.st = "ok" /\ MfParses(v1.mf)
  /\ \A x \in Range(Taken(v1)) : v1.signers[x].pk.st = "ok"
  /\ \E x \in Range(Taken(v1)) : SfParses(SfOf(v1, x))

Signatures(v1) == SelectSeq(Taken(v1), LAMBDA i : SfParses(SfOf(v1, i)))

----------------------------------------------------------------------------
(* --- one PKCS#7 block --- *)
P7Alg(da, dea) ==
  LET combined == CASE da = "md5" -> "md5rsa" [] da = "sha1" -> "sha1rsa" [] da = "sha224" -> "sha224rsa"
                    [] da = "sha256" -> "sha256rsa" [] da = "sha384" -> "sha384rsa" [] da = "sha512" -> "sha512rsa" [] OTHER -> "-"
      cdsa == CASE da = "sha1" -> "sha1dsa" [] da = "sha224" -> "sha224dsa" [] da = "sha256" -> "sha256dsa" [] OTHER -> "-"
      cec == CASE da = "sha1" -> "sha1ec" [] da = "sha224" -> "sha224ec" [] da = "sha256" -> "sha256ec"
               [] da = "sha384" -> "sha384ec" [] da = "sha512" -> "sha512ec" [] OTHER -> "-"
  IN CASE da = "md2" /\ dea = "rsa" -> <<"md2", "rsa">>
       [] da \in {"md5", "sha1", "sha224", "sha256", "sha384", "sha512"} /\ dea \in {"rsa", combined} -> <<da, "rsa">>
       [] da \in {"sha1", "sha224", "sha256"} /\ dea \in {"dsa", cdsa} -> <<da, "dsa">>
       [] da \in {"sha1", "sha224", "sha256", "sha384", "sha512"} /\ dea \in {"ec", cec} -> <<da, "ec">>
       [] OTHER -> <<"none", "none">>

CertFor(pk, c) == FirstIdx(pk.certs, LAMBDA x : CertTab[x].iss = CertTab[c].iss /\ CertTab[x].serial = CertTab[c].serial)

(* hard: the whole block is refused; soft: this SignerInfo does not count; ok *)
InfoCheck(pk, info, max, sfMatches) ==
  LET ci == CertFor(pk, info.cert)
      crt == pk.certs[ci]
      alg == P7Alg(info.da, info.dea)
      (* an RSA signature without its leading zeros is the same number *)
      genuine == /\ info.f \in {"ok", "strip"} /\ info.o = "this"
                 /\ (sfMatches \/ info.sa.st # "none")
                 /\ alg[1] # "md2"
                 /\ info.k = CertTab[crt].key /\ info.m = info.da
                 /\ KeyTyp[info.k] = alg[2]
  IN IF ci = 0 THEN "hard"
     ELSE IF CertTab[crt].crit THEN "hard"
     ELSE IF alg[1] = "none" THEN "hard"
     ELSE IF info.sa.st # "none" THEN
       IF max >= LevelN /\ info.sa.ct \notin {"data", "other"} THEN "hard" \* absent, of another type, not exactly one
       ELSE IF max >= LevelN /\ info.sa.ct = "other" THEN "soft"
       ELSE IF info.sa.md \in {"absent", "dup", "two", "empty", "type"} THEN "hard"
       ELSE IF info.da = "md2" THEN "hard"
       ELSE IF info.sa.md # "good" \/ ~sfMatches THEN "soft"
       ELSE IF genuine THEN "ok" ELSE "soft"
     ELSE IF genuine THEN "ok" ELSE "soft"

RECURSIVE ChainFrom(_, _)
ChainFrom(pk, chain) ==
  LET last == chain[Len(chain)]
      n == FirstIdx(pk.certs, LAMBDA x : CertTab[x].subj = CertTab[last].iss)
  IN IF CertTab[last].iss = CertTab[last].subj THEN chain
     ELSE IF n = 0 \/ Len(chain) > Len(pk.certs) THEN chain
     ELSE ChainFrom(pk, Append(chain, pk.certs[n]))

(* [st: ok|err, chain] *)
BlockCheck(v1, i, min, max) ==
  LET pk == v1.signers[i].pk
      infos == IF min < LevelN /\ Len(pk.infos) > 1 THEN <<pk.infos[1]>> ELSE pk.infos
      same == SfIdx(v1, i) = SignedSfIdx(v1, i)
      rs == [k \in DOMAIN infos |-> InfoCheck(pk, infos[k], max, same)]
      first == FirstIdx(rs, LAMBDA r : r = "ok")
      head == pk.certs[CertFor(pk, infos[first].cert)]
  IN IF infos = <<>> \/ (\E k \in DOMAIN rs : rs[k] = "hard") \/ first = 0 THEN [st |-> "err", chain |-> <<>>]
     ELSE [st |-> "ok", chain |-> ChainFrom(pk, <<head>>)]

----------------------------------------------------------------------------
(* --- a signature file against the manifest --- *)
XaId(t) == CASE t \in {"2", "02", "+2", " 2 ", "\t2"} -> 2
             [] t \in {"3", "03", "+3", " 3 "} -> 3
             [] t \in {"1", "4", "31", "-2", "22", "23", "32", "0"} -> 9
             [] OTHER -> 0
DeclaresNewer(sf, max) == sf.hasxa /\ \E i \in DOMAIN sf.xa : XaId(sf.xa[i]) = 2 \/ (XaId(sf.xa[i]) = 3 /\ max >= LevelP)

SfEntryOK(mf, e, min, max) == EntryCheck(e.ds, e.da, min, max, \E i \in DOMAIN mf.ents : mf.ents[i].n = e.n) = "ok"

WholeOK(sf, min, max) == EntryCheck(sf.whole, sf.da, min, max, TRUE) = "ok"

(* reject (the APK) | drop (this signer) | valid *)
SfCheck(v1, sf, min, max) ==
  IF ~sf.ver THEN "drop"
  ELSE IF ~sf.tool /\ EntryCheck(sf.mainds, sf.da, min, max, TRUE) = "bad" THEN "reject"
  ELSE IF WholeOK(sf, min, max) THEN "valid"
  ELSE IF sf.ents # <<>> /\ \A i \in DOMAIN sf.ents : SfEntryOK(v1.mf, sf.ents[i], min, max) THEN "valid"
  ELSE "drop"

----------------------------------------------------------------------------
(* --- the files against the manifest; valid: <<[i, chain]>> --- *)
MfEnt(mf, n) == LastIdx(mf.ents, LAMBDA e : e.n = n)
Lists(sf, n) == \E i \in DOMAIN sf.ents : sf.ents[i].n = n

ListersOf(v1, valid, n) == SelectSeq(valid, LAMBDA x : Lists(SfOf(v1, x.i), n))
ChainSet(v1, valid, n) == {ListersOf(v1, valid, n)[k].chain : k \in DOMAIN ListersOf(v1, valid, n)}

MainCheck(apk, valid, min, max) ==
  LET v1 == apk.v1
      req == Required(apk)
      good(n) ==
        /\ MfEnt(v1.mf, n) # 0
        /\ LET e == v1.mf.ents[MfEnt(v1.mf, n)] IN EntryCheck(e.ds, e.da, min, max, TRUE) = "ok"
        /\ ChainSet(v1, valid, n) # {}
  IN /\ ~Hidden(apk)
     /\ \A i \in DOMAIN v1.mf.ents : v1.mf.ents[i].n \in Names(apk)
     /\ \E i \in DOMAIN req : req[i] \in {"AndroidManifest.xml", "BundleConfig.pb"}
     /\ \A i \in DOMAIN req : good(req[i])
     /\ \A i \in DOMAIN req : /\ ChainSet(v1, valid, req[i]) = ChainSet(v1, valid, req[1])
                             /\ Len(ListersOf(v1, valid, req[i])) = Len(ListersOf(v1, valid, req[1]))

ReportedChains(apk, valid) ==
  LET l == ListersOf(apk.v1, valid, Required(apk)[1]) IN [k \in DOMAIN l |-> l[k].chain]
=============================================================================
