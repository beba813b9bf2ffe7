-------------------------------- MODULE Edits -------------------------------
(***************************************************************************)
(* What an adversary, a sloppy signer or a broken tool can do to an APK:   *)
(* single edits of its parts.  Every operator yields the set of results of *)
(* one edit.                                                               *)
(***************************************************************************)
EXTENDS Mk

SetAt(s, i, x) == [s EXCEPT ![i] = x]
EditAt(s, E(_)) == UNION {{SetAt(s, i, x) : x \in E(s[i])} : i \in DOMAIN s}
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Drops(s) == {Drop(s, i) : i \in DOMAIN s}
Swaps(s) == {SetAt(SetAt(s, i, s[i+1]), i + 1, s[i]) : i \in 1..(Len(s)-1)}
InsAny(s, X) == UNION {{Ins(s, i, x) : x \in X} : i \in 1..(Len(s)+1)}
Dups(s) == {Append(s, s[i]) : i \in DOMAIN s}
Else(x, S) == S \ {x}

Algs == {"pss256", "pss512", "rsa256", "rsa512", "ec256", "ec512", "dsa256", "vrsa", "vec", "vdsa", "unkX", "unkY", "unkZ"}
SomeKeys == {"rsaA", "rsaB", "ecA", "ecB", "dsaB"}

SigEdits(g) ==
  {[g EXCEPT !.a = x] : x \in Algs} \cup {[g EXCEPT !.m = x] : x \in Algs} \cup {[g EXCEPT !.k = x] : x \in SomeKeys}
  \cup {[g EXCEPT !.o = "other"]} \cup {[g EXCEPT !.f = x] : x \in {"short", "badlen", "garbage", "garbage2", "one", "none", "trunc", "trail", "zero", "neg", "lead", "three"}}
NewSigs == {Sg(a, k) : a \in {"rsa256", "unkX"}, k \in {"rsaA"}} \cup {[Sg("rsa512", "rsaB") EXCEPT !.o = "other"]}
SigsEdits(s) == EditAt(s, SigEdits) \cup Drops(s) \cup Dups(s) \cup Swaps(s) \cup InsAny(s, NewSigs)

DigEdits(d) ==
  {[d EXCEPT !.a = x] : x \in Algs} \cup {[d EXCEPT !.d = x] : x \in {"good", "bad", "badtail", "short", "empty"}}
  \cup {[d EXCEPT !.f = x] : x \in {"short", "badlen", "trunc"}}
DigsEdits(s) == EditAt(s, DigEdits) \cup Drops(s) \cup Dups(s) \cup Swaps(s) \cup InsAny(s, {Dg("rsa256"), Dg("unkX"), [Dg("rsa512") EXCEPT !.d = "bad"]})

(* a further algorithm, signed and digested, in the same place of both lists *)
NewAlg(s, i, a, dv, good) ==
  [s EXCEPT !.sigs = Ins(@, i, IF good THEN Sg(a, s.pub) ELSE [Sg(a, s.pub) EXCEPT !.o = "other"]),
            !.digs = Ins(@, i, [Dg(a) EXCEPT !.d = dv])]
AlgEdits(s) ==
  {NewAlg(s, i, a, dv, good) : i \in 1..(Len(s.sigs)+1) \cap 1..(Len(s.digs)+1), a \in Algs, dv \in {"good", "bad"}, good \in BOOLEAN}

CertToks == {"rsaA", "rsaB", "ecA", "ecA2", "fakeRA", "leafRA", "expR", "junk"}
SignerCertEdits(s) ==
  {[s EXCEPT !.pub = x] : x \in {"rsaA", "rsaB", "ecA", "dsaB", "edA", "junk"}}
  \cup {[s EXCEPT !.certs = x] : x \in EditAt(s.certs, LAMBDA c : CertToks) \cup Drops(s.certs) \cup Dups(s.certs) \cup Swaps(s.certs) \cup InsAny(s.certs, {"rsaB", "ecC", "junk"})}
  \cup {[s EXCEPT !.pub = k, !.certs = <<k>>] : k \in SomeKeys}
  \cup {[s EXCEPT !.pub = k, !.sigs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.k = k]]] : k \in SomeKeys}
SignerFrEdits(s) ==
  {[s EXCEPT !.fr = x] : x \in {"sdTrunc", "sigsTrunc", "pubTrunc", "digsTrunc", "certsTrunc", "attrsTrunc", "noattrs", "signerTrunc",
                               "cut0", "cut1", "cut2", "cut3", "cut4", "cut5", "cut6", "sdcut0", "sdcut1", "sdcut2", "sdcut3", "sdcut4"}}
  \cup {[s EXCEPT !.trail = ~@]}
SignerSigEdits(s) ==
  {[s EXCEPT !.sigs = x] : x \in SigsEdits(s.sigs)} \cup {[s EXCEPT !.digs = x] : x \in DigsEdits(s.digs)} \cup AlgEdits(s)

SdkToks == {-1, 0, 1, 18, 24, 27, 28, 29, 30, 32, 33, 34, MaxInt - 1, MaxInt}
SignerSdkEdits(s) ==
  {[s EXCEPT !.omin = x] : x \in SdkToks} \cup {[s EXCEPT !.omax = x] : x \in SdkToks}
  \cup {[s EXCEPT !.smin = x] : x \in SdkToks} \cup {[s EXCEPT !.smax = x] : x \in SdkToks}
  \cup {[s EXCEPT !.omin = x, !.smin = x] : x \in SdkToks} \cup {[s EXCEPT !.omax = x, !.smax = x] : x \in SdkToks}
  \cup {[s EXCEPT !.omin = s.omax, !.smin = s.omax, !.omax = s.omin, !.smax = s.omin]}

(* lineages *)
NodeCerts == {"rsaA", "rsaB", "ecA", "ecB", "ecC", "ecA2", "leafRA", "junk"}
NodeForms == {"sdTrunc", "trunc", "cut0", "cut1", "cut2", "cut3", "cut4", "sdcut0", "sdcut1", "sdcut2", "tail", "sdtail"}
NodeEdits(n) ==
  {[n EXCEPT !.c = x] : x \in NodeCerts} \cup {[n EXCEPT !.pa = x] : x \in {"rsa256", "rsa512", "ec256", "ec512", "unkX"}}
  \cup {[n EXCEPT !.na = x] : x \in {"rsa256", "rsa512", "pss256", "ec256", "ec512", "unkX"}}
  \cup {[n EXCEPT !.fl = x] : x \in {0, 7}} \cup {[n EXCEPT !.k = x] : x \in {"rsaA", "rsaB", "ecA", "ecB"}}
  \cup {[n EXCEPT !.m = x] : x \in {"rsa256", "rsa512", "ec256", "ec512", "unkX"}}
  \cup {[n EXCEPT !.o = "other"]} \cup {[n EXCEPT !.f = x] : x \in NodeForms}
NodesEdits(ns) == EditAt(ns, NodeEdits) \cup Drops(ns) \cup Swaps(ns) \cup Dups(ns)
(* other lineages to the same certificate, well signed; also ones in which a certificate returns *)
LinSeqs == UNION {[1..k -> {"rsaA", "ecA", "ecB"}] : k \in 0..3}
Relin(ns) == IF ns = <<>> \/ ns[Len(ns)].c = "junk" THEN {} ELSE {MkLin(Append(p, ns[Len(ns)].c)) : p \in LinSeqs}
LinEdits(a) ==
  {[a EXCEPT !.nodes = x] : x \in Relin(a.nodes)} \cup
  {[a EXCEPT !.nodes = x] : x \in NodesEdits(a.nodes)} \cup {[a EXCEPT !.ver = x] : x \in {-1, 0, 2, 256}} \cup {[a EXCEPT !.s = TRUE]}

OtherAttrs == {At("unk", 0), At("unk", 1), At("dev", 0), At("short", 0), At("short", 3), At("trunc", 0)}
BadAttrs == {At("short", 0), At("short", 3), At("trunc", 0)}
TolerableAttrs == {At("unk", 0), At("unk", 7), At("dev", 0)}
StripAttrs == {Strip(v) : v \in {-1, 0, 1, 2, 3, 4, 30, 31, 32, 771}}
RotAttrs == {RotMinAttr(v) : v \in {0, 27, 28, 32, 33, 34, 35, MaxInt}}
ValueAttrEdits(a) == {[a EXCEPT !.s = TRUE]} \cup {[a EXCEPT !.v = x] : x \in {0, 2, 3, 31, 33, 34, 35}}
SignerAttrEdits(s) ==
  {[s EXCEPT !.attrs = x] :
     x \in Drops(s.attrs) \cup Swaps(s.attrs) \cup InsAny(s.attrs, OtherAttrs \cup StripAttrs \cup RotAttrs)
           \cup EditAt(s.attrs, LAMBDA a : CASE a.t = "lin" -> LinEdits(a) [] OTHER -> ValueAttrEdits(a))}
SignerLinEdits(s) ==
  {[s EXCEPT !.attrs = x] :
     x \in Drops(s.attrs) \cup EditAt(s.attrs, LAMBDA a : IF a.t = "lin" THEN LinEdits(a) ELSE {})
           \cup InsAny(s.attrs, {LinAt(MkLin(<<"ecA", "ecB">>)), LinAt(MkLin(<<"ecB">>)), LinAt(<<>>)})}

(* the signing block *)
IsSigPair(p) == p.id \in {"v2", "v3", "v31"}
OnSigners(a, E(_)) ==
  {[a EXCEPT !.sb.pairs[i].signers = x] : <<i, x>> \in UNION {{<<i, x>> : x \in EditAt(a.sb.pairs[i].signers, E)} : i \in DOMAIN a.sb.pairs}}
SignerListEdits(a) ==
  {[a EXCEPT !.sb.pairs[i].signers = x] :
     <<i, x>> \in UNION {{<<i, x>> : x \in IF IsSigPair(a.sb.pairs[i])
                            THEN Drops(a.sb.pairs[i].signers) \cup Dups(a.sb.pairs[i].signers) \cup Swaps(a.sb.pairs[i].signers)
                                 \cup InsAny(a.sb.pairs[i].signers, {S3(<<"ec256">>, "ecB", 28, MaxInt), [S3(<<"ec256">>, "ecC", 28, MaxInt) EXCEPT !.sigs[1].o = "other"]})
                            ELSE {}} : i \in DOMAIN a.sb.pairs}}
UnknownPairs == {Px("unkA", "x"), Px("unkB", ""), Px("meituan", "m"), Px("depmeta", ""), Px("stampv1", ""), Px("pad", "")}
PairEdits(a) ==
  IF a.sb.st # "ok" THEN {}
  ELSE {[a EXCEPT !.sb.pairs = x] : x \in Drops(a.sb.pairs) \cup Swaps(a.sb.pairs) \cup InsAny(a.sb.pairs, UnknownPairs)}
       \cup {[a EXCEPT !.sb.pairs[i].fr = f] : i \in {j \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[j])}, f \in {"empty", "listTrunc", "tail"}}
UnknownPairEdits(a) == IF a.sb.st # "ok" THEN {} ELSE {[a EXCEPT !.sb.pairs = x] : x \in InsAny(a.sb.pairs, UnknownPairs) \cup Swaps(a.sb.pairs)}
(* a second entry of an id, before or after the first one and anything between *)
Second(a, i, p) == {[a EXCEPT !.sb.pairs = Append(@, p)], [a EXCEPT !.sb.pairs = <<p>> \o @], [a EXCEPT !.sb.pairs = InsertAt(@, i, p)]}
DupPairEdits(a) ==
  IF a.sb.st # "ok" THEN {}
  ELSE UNION {UNION {Second(a, i, p) : p \in
         LET q == a.sb.pairs[i] IN
         IF IsSigPair(q) THEN {[q EXCEPT !.signers = x] : x \in {<<>>, <<S3(<<"ec256">>, "ecB", 28, MaxInt)>>}} \cup {[q EXCEPT !.fr = "listTrunc"], q}
         ELSE IF q.id = "stamp" THEN {[q EXCEPT !.stamp.cert = "rsaB"], [q EXCEPT !.stamp.schemes = <<>>], q}
         ELSE IF q.id = "frost" THEN {[q EXCEPT !.frost.entries = <<>>], [q EXCEPT !.frost.entries = [@ EXCEPT ![1].hash = "bad"]], q}
         ELSE {[q EXCEPT !.data = "second"]}} : i \in DOMAIN a.sb.pairs}
DmgEdits(a) ==
  IF a.sb.st # "ok" THEN {}
  ELSE {[a EXCEPT !.sb.dmg = x] : x \in {"magic", "magiclo", "hdrsize", "hdrlow", "hdrhigh", "hdrneg", "ftrhigh", "ftrbig", "ftrsmall", "ftrover", "gap", "pairbig", "pairone", "pairneg", "pairshort", "pairzero", "pairhuge", "tail", "tail7", "tail8"}}
StripBlock(a) == {[a EXCEPT !.sb = NoBlock]}
(* every content digest of one pair wrong: the content was changed after that block was made *)
Stale(a) ==
  IF a.sb.st # "ok" THEN {}
  ELSE {[a EXCEPT !.sb.pairs[i].signers = [k \in DOMAIN @ |-> [@[k] EXCEPT !.digs = [d \in DOMAIN @ |-> [@[d] EXCEPT !.d = "bad"]]]]] :
          i \in {j \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[j])}}

(* the archive *)
PrefixEdits(a) == {[a EXCEPT !.zip.prefix = x] : x \in {"dex", "dex2", "nodex", "dexlate", "junk"}}
CommentEdits(a) == {[a EXCEPT !.zip.comment = x] : x \in {"text", "magic", "max", "1", "4", "21", "22", "255", "256", "65534"}}
EocdEdits(a) == {[a EXCEPT !.zip.eocd = x] : x \in {"zip64", "cdgap", "cdpast", "cdsize", "comlen", "trail", "nomagic"}} \cup {[a EXCEPT !.zip.comment = "fake"]}
AlignEdits(a) == {[a EXCEPT !.zip.align = ~@]}

AmEdits(a) ==
  {[a EXCEPT !.am.st = x] : x \in {"absent", "bad", "text"}}
  \cup {[a EXCEPT !.am.min = x] : x \in {-2, -1, 1, 14, 18, 21, 23, 24, 26, 28, 33}}
  \cup {[a EXCEPT !.am.tgt = x] : x \in {-2, -1, 23, 27, 29, 30, 31, 33, 34}}
  \cup {[a EXCEPT !.am.sbx = x] : x \in {-2, -1, 0, 1, 2, 3}}

(* v1 *)
Vals == {"good", "bad", "badtail", "short", "b64", "empty"}
DsAlgs == {"md5", "sha", "sha1", "sha-256", "sha-384", "sha-512"}
DsEdits(ds) ==
  {[ds EXCEPT ![i].v = x] : i \in DOMAIN ds, x \in Vals} \cup {[ds EXCEPT ![i].a = x] : i \in DOMAIN ds, x \in {y \in DsAlgs : ~HasDs(ds, y)}}
  \cup Drops(ds) \cup {Append(ds, D(x, v)) : x \in {y \in DsAlgs : ~HasDs(ds, y)}, v \in {"good", "bad"}}
DaToks == {<<>>, <<"sha1">>, <<"sha">>, <<"sha-256">>, <<"sha-256", "sha1">>, <<"sha1", "sha-512">>, <<"sha-384">>, <<"md5">>, <<"md5", "sha1">>, <<"foo">>}
EntEdits(e) == {[e EXCEPT !.ds = x] : x \in DsEdits(e.ds)} \cup {[e EXCEPT !.da = x] : x \in DaToks}
EntsEdits(es) == EditAt(es, EntEdits) \cup Drops(es)
XaToks == {<<"2">>, <<"3">>, <<"2", "3">>, <<"3", "2">>, <<" 2 ">>, <<"\t2">>, <<"02">>, <<"+2">>, <<" 3 ">>, <<"1">>, <<"4">>, <<"">>, <<"x">>, <<"">>, <<"22">>, <<"-2">>,
           <<"x", "2">>, <<"1", "", " 3 ">>, <<"2.0">>, <<"31">>, <<"23">>, <<"32">>, <<"4", "3">>, <<"0x2">>, <<"0", "2">>}
SfEdits(sf) ==
  {[sf EXCEPT !.ver = ~@]} \cup {[sf EXCEPT !.tool = ~@]} \cup {[sf EXCEPT !.st = "absent"]}
  \cup {[sf EXCEPT !.da = x] : x \in DaToks}
  \cup {[sf EXCEPT !.mainds = x] : x \in DsEdits(sf.mainds)} \cup {[sf EXCEPT !.whole = x] : x \in DsEdits(sf.whole)}
  \cup {[sf EXCEPT !.ents = x] : x \in EntsEdits(sf.ents)}
  \cup {[sf EXCEPT !.whole = x, !.ents = y] : x \in {<<>>, <<D("sha1", "bad")>>}, y \in EntsEdits(sf.ents)}
XaEdits(sf) == {[sf EXCEPT !.hasxa = TRUE, !.xa = x] : x \in XaToks}
BadToks == {"nul", "colon", "name", "longname", "emptyname", "nosep", "unnamed", "dupsec"}
V1Hashes == {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "md2", "unk"}
Deas == {"rsa", "ec", "dsa", "sha1rsa", "sha256rsa", "sha512rsa", "sha256ec", "sha512ec", "sha1dsa", "sha256dsa", "md5rsa", "unk"}
Signable == {"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}
InfoEdits(n) ==
  {[n EXCEPT !.da = x] : x \in V1Hashes} \cup {[n EXCEPT !.dea = x] : x \in Deas} \cup {[n EXCEPT !.m = x] : x \in Signable}
  \cup {[n EXCEPT !.da = x, !.m = x] : x \in Signable} \cup {[n EXCEPT !.da = x, !.m = x, !.dea = y] : x \in Signable, y \in {"rsa", "ec", "dsa"}}
  \cup {[n EXCEPT !.k = x] : x \in {"rsaA", "rsaB", "ecA", "dsaA"}} \cup {[n EXCEPT !.cert = x] : x \in {"rsaA", "rsaB", "ecA", "dsaB", "fakeRA", "twinR", "crit", "negR"}}
  \cup {[n EXCEPT !.o = "other"]} \cup {[n EXCEPT !.f = x] : x \in {"garbage", "none", "trail", "zero", "neg", "lead", "strip"}}
  \cup {[n EXCEPT !.sa = [st |-> t, ct |-> c, md |-> m]] : t \in {"ok", "rev"}, c \in {"data", "other", "absent"}, m \in {"good", "bad", "absent"}}
  \cup {[n EXCEPT !.sa = [st |-> "ok", ct |-> c, md |-> "good"]] : c \in {"dup", "two", "empty", "type"}}
  \cup {[n EXCEPT !.sa = [st |-> "ok", ct |-> "data", md |-> m]] : m \in {"dup", "two", "empty", "type", "short"}}
  \cup {[n EXCEPT !.sa = [st |-> "ok", ct |-> "data", md |-> m], !.da = x, !.m = x] : m \in {"good", "bad"}, x \in V1Hashes \ {"md2", "unk"}}
PkEdits(pk) ==
  {[pk EXCEPT !.st = x] : x \in {"garbage", "empty", "trunc"}}
  \cup {[pk EXCEPT !.infos = x] : x \in EditAt(pk.infos, InfoEdits) \cup Drops(pk.infos) \cup Dups(pk.infos) \cup Swaps(pk.infos)
                                        \cup InsAny(pk.infos, {Info1("sha256", "rsa", "rsaB", "rsaB"), Info1("sha1", "ec", "ecA", "ecA"), [Info1("sha256", "rsa", "rsaA", "rsaA") EXCEPT !.o = "other"]})}
  \cup {[pk EXCEPT !.certs = x] : x \in EditAt(pk.certs, LAMBDA c : {"rsaB", "fakeRA", "ecA", "crit", "expR", "leafRA"}) \cup Drops(pk.certs) \cup Swaps(pk.certs)
                                        \cup InsAny(pk.certs, {"rsaB", "ecA", "fakeRA", "twinR", "leafEA", "interEA"})}
OnV1Signers(a, E(_)) == {[a EXCEPT !.v1.signers = x] : x \in EditAt(a.v1.signers, E)}
OnSf(a, E(_)) == OnV1Signers(a, LAMBDA s : {[s EXCEPT !.sf = x] : x \in E(s.sf)})
OnPk(a, E(_)) == OnV1Signers(a, LAMBDA s : {[s EXCEPT !.pk = x] : x \in E(s.pk)})
MfEdits(a) == {[a EXCEPT !.v1.mf.ents = x] : x \in EntsEdits(a.v1.mf.ents)} \cup {[a EXCEPT !.v1.mf.st = "absent"]}
BadEdits(a) == {[a EXCEPT !.v1.mf.bad = x] : x \in BadToks} \cup OnSf(a, LAMBDA sf : {[sf EXCEPT !.bad = x] : x \in BadToks})
FmtEdits(a) ==
  {[a EXCEPT !.v1.fmt.eol = x] : x \in {"lf", "cr"}} \cup {[a EXCEPT !.v1.fmt.wrap = x] : x \in {1, 2, 3, 7, 20, 60}}
  \cup {[a EXCEPT !.v1.fmt.case = x] : x \in {"lower", "upper"}} \cup {[a EXCEPT !.v1.fmt.rev = TRUE]}
SignersEdits(a) ==
  {[a EXCEPT !.v1.signers = x] : x \in Drops(a.v1.signers) \cup Swaps(a.v1.signers)}
  (* a second block for a signature file: of another kind, by someone else, good or not, after or before the first *)
  \cup {[a EXCEPT !.v1.signers = x] : x \in IF a.v1.signers = <<>> THEN {} ELSE UNION {{Append(a.v1.signers, s), <<s>> \o a.v1.signers} : s \in
         {[V1Sgn(a.v1.signers[1].base, "ecB", Names0, Sha1Ds, "sha256") EXCEPT !.ext = e, !.sf.st = "absent", !.pk.infos[1].o = o] : e \in {"EC", "DSA"}, o \in {"this", "other"}}}}
V1All(a) == MfEdits(a) \cup OnSf(a, SfEdits) \cup OnPk(a, PkEdits) \cup SignersEdits(a)

FileNames == {"classes.dex", "assets/new.bin", "META-INF/note.txt", "META-INF/services/x", "META-INF/sub/y", "META-INFO/x", "meta-inf/x", "res/META-INF/x", "BundleConfig.pb", "CLASSES.DEX", "Res/x.txt", "androidmanifest.xml", "classes2.dex", "classes.dex.SF", "lib/META-INF/CERT.RSA",
              "META-INF", "resources.arsc", "lib/x86/libx.so", ".hidden", "kotlin/kotlin.kotlin_builtins", "DebugProbesKt.bin", "assets/META-INF/MANIFEST.MF", "MANIFEST.MF", "res/raw/stamp-cert-sha256", "base/manifest/AndroidManifest.xml"} \cup NearMisses
FileEdits(a) ==
  {[a EXCEPT !.files = x] : x \in Drops(a.files) \cup Swaps(a.files)}
  \cup {[a EXCEPT !.files = Append(@, Fl(n, "new"))] : n \in {y \in FileNames : \A i \in DOMAIN a.files : a.files[i].n # y}}
  \cup {[a EXCEPT !.files = Append(@, [Fl("assets/odd", "new") EXCEPT !.z = "storedir"])]}
  \cup {[a EXCEPT !.files = Append(@, [n |-> "assets/dir", c |-> "empty", z |-> "store", dir |-> TRUE])]}
  \cup {[a EXCEPT !.files[i].n = x] : i \in DOMAIN a.files, x \in {y \in {"assets/moved.bin", "META-INF/extra.bin"} : \A j \in DOMAIN a.files : a.files[j].n # y}}
  \cup {[a EXCEPT !.am.st = "absent"]}
  \cup {[a EXCEPT !.stf = s] : s \in {"junk", "empty"}}
DupFileEdits(a) ==
  {[a EXCEPT !.zip.late = n] : n \in {"classes.dex", "./classes.dex", "assets/../classes.dex", "META-INF/../classes.dex", ".//classes.dex", "res/x.txt", "res//x.txt", "res/./x.txt", "res/x.txt/",
                                    "AndroidManifest.xml", "./AndroidManifest.xml", "META-INF/note.txt", "META-INF//note.txt", "./META-INF/note.txt", "assets/late.bin"}}
  \cup {[a EXCEPT !.files = <<[Fl("assets/odd", "empty") EXCEPT !.dir = TRUE, !.z = "store"], Fl("assets/odd", "new")>> \o @]}
  \cup {[a EXCEPT !.files = <<Fl("assets/odd", "new"), [Fl("assets/odd", "empty") EXCEPT !.dir = TRUE, !.z = "store"]>> \o @]}
  \cup {[a EXCEPT !.files = x] : x \in Dups(a.files)}

(* stamps and frosting *)
StampSigsEdits(ss) == EditAt(ss, SigEdits) \cup Drops(ss) \cup InsAny(ss, {Sg("unkX", "ecC"), Sg("ec512", "ecC"), [Sg("ec512", "ecC") EXCEPT !.o = "other"], Sg("pss512", "ecC"), Sg("vec", "ecC")})
StampAttrEdits(a) ==
  IF a.t = "slin" THEN LinEdits(a)
  ELSE {[a EXCEPT !.v = x] : x \in {-1, 0, 1, 1600000000}} \cup {[a EXCEPT !.s = TRUE]} \cup {[a EXCEPT !.t = x] : x \in {"unk", "short", "trunc"}}
StampEdits(s) ==
  {[s EXCEPT !.fr = x] : x \in {"topTrunc", "certTrunc", "schemesTrunc", "attrTrunc", "asigTrunc", "attrListTrunc", "rest1", "rest4", "rest8"}}
  \cup {[s EXCEPT !.cert = x] : x \in {"ecA", "ecC", "rsaB", "junk", "expR"}}
  \cup {[s EXCEPT !.schemes = x] : x \in Drops(s.schemes) \cup Dups(s.schemes) \cup Swaps(s.schemes)
          \cup EditAt(s.schemes, LAMBDA c : {[c EXCEPT !.id = y] : y \in {0, 1, 2, 3, 31}} \cup {[c EXCEPT !.sigs = y] : y \in StampSigsEdits(c.sigs)})}
  \cup {[s EXCEPT !.hasattrs = ~@]}
  \cup {[s EXCEPT !.asigs = x] : x \in StampSigsEdits(s.asigs)}
  \cup {[s EXCEPT !.attrs = x] : x \in EditAt(s.attrs, StampAttrEdits) \cup Drops(s.attrs) \cup Swaps(s.attrs)
          \cup InsAny(s.attrs, {TimeAt(1500000000), TimeAt(0), At("unk", 1), At("short", 0), SLinAt(MkLin(<<"ecA", "ecC">>)), SLinAt(<<>>)})}
OnStamp(a) ==
  {[a EXCEPT !.sb.pairs[i].stamp = x] : <<i, x>> \in UNION {{<<i, x>> : x \in StampEdits(a.sb.pairs[i].stamp)} : i \in {j \in DOMAIN a.sb.pairs : a.sb.pairs[j].id = "stamp"}}}
  \cup {[a EXCEPT !.stf = x] : x \in {"absent", "junk", "big", "empty", "long", "short", "ecC", "ecA", "rsaB"}}
  \cup {[a EXCEPT !.sb.pairs = Drop(@, i)] : i \in {j \in DOMAIN a.sb.pairs : a.sb.pairs[j].id = "stamp"}}
FrostEntryEdits(e) ==
  {[e EXCEPT !.dis = x] : x \in {0, 1, 200}} \cup {[e EXCEPT !.key = x] : x \in {0, 1, 2, 100000}} \cup {[e EXCEPT !.hash = x] : x \in {"good", "bad", "short", "long"}}
  \cup {[e EXCEPT !.k = x] : x \in {"frost", "frost2"}} \cup {[e EXCEPT !.o = x] : x \in {"this", "other", "all"}}
  \cup {[e EXCEPT !.f = x] : x \in {"ok", "garbage", "trail", "missing"}}
FrostEdits(f) ==
  {[f EXCEPT !.fr = x] : x \in {"sizebig", "protobig", "metabig", "trunc", "longvar", "gap", "tail", "neg", "metaneg", "metazero", "metasmall", "sigsbig", "sigssmall", "sigsmore"}}
  \cup {[f EXCEPT !.entries = x] : x \in EditAt(f.entries, FrostEntryEdits) \cup Drops(f.entries) \cup Swaps(f.entries) \cup Dups(f.entries)}
OnFrost(a) ==
  {[a EXCEPT !.sb.pairs[i].frost = x] : <<i, x>> \in UNION {{<<i, x>> : x \in FrostEdits(a.sb.pairs[i].frost)} : i \in {j \in DOMAIN a.sb.pairs : a.sb.pairs[j].id = "frost"}}}
=============================================================================
