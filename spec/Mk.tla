--------------------------------- MODULE Mk ---------------------------------
(***************************************************************************)
(* Constructors of abstract APKs: what a correct signer would produce.     *)
(***************************************************************************)
EXTENDS Verifier

Sg(a, k) == [a |-> a, m |-> a, k |-> k, o |-> "this", f |-> "ok"]
Dg(a) == [a |-> a, d |-> "good", f |-> "ok"]
Sgs(algs, k) == [i \in DOMAIN algs |-> Sg(algs[i], k)]
Dgs(algs) == [i \in DOMAIN algs |-> Dg(algs[i])]

(* a signer with the given algorithms, key, certificates, SDK range and attributes *)
Sgn(algs, key, certs, min, maxv, attrs) ==
  [fr |-> "ok", omin |-> min, omax |-> maxv, smin |-> min, smax |-> maxv, sigs |-> Sgs(algs, key), pub |-> key,
   certs |-> certs, digs |-> Dgs(algs), attrs |-> attrs, trail |-> FALSE]
S2(algs, key) == Sgn(algs, key, <<key>>, 0, 0, <<>>)
S3(algs, key, min, maxv) == Sgn(algs, key, <<key>>, min, maxv, <<>>)

At(t, v) == [t |-> t, v |-> v, s |-> FALSE, ver |-> 0, nodes |-> <<>>]
Strip(v) == At("strip", v)
RotMinAttr(v) == At("rotmin", v)
LinAt(nodes) == [t |-> "lin", v |-> 0, s |-> FALSE, ver |-> 1, nodes |-> nodes]
SLinAt(nodes) == [t |-> "slin", v |-> 0, s |-> FALSE, ver |-> 1, nodes |-> nodes]

AlgForTyp == [rsa |-> "rsa256", ec |-> "ec256", dsa |-> "dsa256", ed |-> "unkY"]
AlgForKey(k) == AlgForTyp[KeyTyp[k]]
AlgForCert(c) == AlgForKey(KeyOf(c))
(* a correct proof of rotation through the given certificates *)
MkLin(cs) == [i \in DOMAIN cs |->
  [c |-> cs[i], pa |-> IF i = 1 THEN "unkZ" ELSE AlgForCert(cs[i-1]), na |-> AlgForCert(cs[i]), fl |-> 23 - 2 * i,
   k |-> IF i = 1 THEN "" ELSE KeyOf(cs[i-1]), m |-> IF i = 1 THEN "unkZ" ELSE AlgForCert(cs[i-1]), o |-> "this", f |-> "ok"]]

Pr(id, signers) == [id |-> id, fr |-> "ok", signers |-> signers]
Px(id, data) == [id |-> id, fr |-> "ok", signers |-> <<>>, data |-> data]
Pstamp(st) == [id |-> "stamp", fr |-> "ok", signers |-> <<>>, stamp |-> st]
Pfrost(fr) == [id |-> "frost", fr |-> "ok", signers |-> <<>>, frost |-> fr]

Block(pairs) == [st |-> "ok", dmg |-> "none", pairs |-> pairs]
NoBlock == [st |-> "none", dmg |-> "none", pairs |-> <<>>]

PlainZip == [prefix |-> "none", comment |-> "none", eocd |-> "ok", align |-> FALSE, late |-> "none"]
AlignZip == [PlainZip EXCEPT !.align = TRUE]
AmOf(min, tgt, sbx) == [st |-> "ok", min |-> min, tgt |-> tgt, sbx |-> sbx]
Am0 == AmOf(14, 27, -1)
Fl(n, c) == [n |-> n, c |-> c, z |-> "deflate", dir |-> FALSE]
Files0 == <<Fl("classes.dex", "a"), [n |-> "res/x.txt", c |-> "b", z |-> "store", dir |-> FALSE]>>
Names0 == <<"classes.dex", "res/x.txt", "AndroidManifest.xml">>

(* --- v1 --- *)
D(a, v) == [a |-> a, v |-> v]
En(n, ds) == [n |-> n, da |-> <<>>, ds |-> ds]
PlainFmt == [eol |-> "crlf", wrap |-> 0, case |-> "canon", rev |-> FALSE]
NoV1 == [st |-> "none", fmt |-> PlainFmt, mf |-> [st |-> "ok", bad |-> "none", ents |-> <<>>], signers |-> <<>>]
NoSa == [st |-> "none", ct |-> "data", md |-> "good"]
Sa0 == [st |-> "ok", ct |-> "data", md |-> "good"]
Info1(da, dea, k, cert) == [da |-> da, dea |-> dea, k |-> k, cert |-> cert, m |-> da, o |-> "this", f |-> "ok", sa |-> NoSa]
MkSf(names, ds) == [st |-> "ok", bad |-> "none", ver |-> TRUE, tool |-> FALSE, hasxa |-> FALSE, xa |-> <<>>, da |-> <<>>,
                    mainds |-> <<>>, whole |-> ds, ents |-> [i \in DOMAIN names |-> En(names[i], ds)]]
ExtOf(k) == CASE KeyTyp[k] = "rsa" -> "RSA" [] KeyTyp[k] = "dsa" -> "DSA" [] OTHER -> "EC"
V1Sgn(base, key, names, ds, da) ==
  [base |-> base, ext |-> ExtOf(key), sf |-> MkSf(names, ds),
   pk |-> [st |-> "ok", certs |-> <<key>>, infos |-> <<Info1(da, KeyTyp[key], key, key)>>]]
MkMf(names, ds) == [st |-> "ok", bad |-> "none", ents |-> [i \in DOMAIN names |-> En(names[i], ds)]]
MkV1(names, ds, signers) == [st |-> "ok", fmt |-> PlainFmt, mf |-> MkMf(names, ds), signers |-> signers]
Sha1Ds == <<D("sha1", "good")>>
Sha256Ds == <<D("sha-256", "good")>>
PlainV1 == MkV1(Names0, Sha1Ds, <<V1Sgn("CERT", "rsaA", Names0, Sha1Ds, "sha256")>>)

Apk(sb, v1) == [zip |-> PlainZip, files |-> Files0, am |-> Am0, stf |-> "absent", sb |-> sb, v1 |-> v1]
(* signed with a signing block and with v1 *)
ApkB(pairs) == Apk(Block(pairs), PlainV1)
(* only with a signing block *)
ApkN(pairs) == Apk(Block(pairs), NoV1)
ApkV1(v1) == Apk(NoBlock, v1)

MkStamp(cert, ids, a, attrs) ==
  [fr |-> "ok", cert |-> cert, schemes |-> [i \in DOMAIN ids |-> [id |-> ids[i], sigs |-> <<Sg(a, KeyOf(cert))>>]],
   hasattrs |-> TRUE, asigs |-> <<Sg(a, KeyOf(cert))>>, attrs |-> attrs]
TimeAt(v) == At("time", v)

FrostEntry(hash) == [dis |-> 0, key |-> 0, hash |-> hash, k |-> "frost", o |-> "this", f |-> "ok"]
MkFrost(es) == [fr |-> "ok", entries |-> es]
=============================================================================
