-------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties, stated over a finished call (what it was given, what it *)
(* answered) without reference to the steps that led there.  TLC checks    *)
(* the one named by Prop on every explored state (Holds); Keep says which  *)
(* parts of the answer it speaks about, which is what the conformance      *)
(* checks compare with the implementation.                                 *)
(***************************************************************************)
EXTENDS Edits

CONSTANT Prop

out == w.out
Accepted == out.res \in {"acc", "dex"}
(* lower bound really meant: explicit, or from the manifest, or 1 *)
GivenLo ==
  IF call = "verify" /\ inp.min = AnyMin
  THEN (IF apk.am.st = "ok" /\ ~AmBad /\ apk.am.min # -1 THEN apk.am.min ELSE IF AmBad THEN AnyMin ELSE 1)
  ELSE IF call = "extract" THEN AnyMin ELSE inp.min
(* The block result this call came to (for a verify call: the intermediate one) *)
BlockRes == IF call = "block" THEN out.res ELSE w.sb.res
BlockUsed == Accepted /\ out.scheme \in {2, 3, 31}

SchemeName(n) == CASE n = 2 -> "v2" [] n = 3 -> "v3" [] n = 31 -> "v31"
Listed(id) == IF HasPair(id) THEN PairOf(id).signers ELSE <<>>

(* --- C02 --- *)
Strongest(sigs, i) ==
  /\ Supported(sigs[i].a)
  /\ \A j \in DOMAIN sigs : Supported(sigs[j].a) => (Rank(sigs[j].a) <= Rank(sigs[i].a) /\ (j < i => Rank(sigs[j].a) < Rank(sigs[i].a)))
WhollySigned(s) ==
  /\ s.fr = "ok"
  /\ s.certs # <<>> /\ \A c \in DOMAIN s.certs : Parses(s.certs[c])
  /\ s.pub = KeyOf(s.certs[1])
  /\ \E i \in DOMAIN s.sigs : Strongest(s.sigs, i) /\ SigVerifies(s.sigs[i], KeyOf(s.certs[1]), s.sigs[i].a)
  /\ Len(s.sigs) = Len(s.digs) /\ \A i \in DOMAIN s.sigs : s.sigs[i].a = s.digs[i].a
P02 == BlockUsed =>
  LET ss == Listed(SchemeName(out.scheme)) IN
    /\ ss # <<>> /\ PairOf(SchemeName(out.scheme)).fr = "ok"
    /\ \A i \in DOMAIN ss : WhollySigned(ss[i])
    /\ out.scheme = 2 => Len(ss) <= 10
    /\ out.certs = [i \in DOMAIN ss |-> ss[i].certs]

(* the digest that counts of a signer is the file's *)
DigestGood(s) ==
  \E i \in DOMAIN s.sigs : Strongest(s.sigs, i) /\
    LET a == s.sigs[i].a
        l == LastIdx(s.digs, LAMBDA d : d.a = a)
    IN l # 0 /\ s.digs[l].d = "good" /\ (DigOf(a) = "v256" => apk.zip.align)
P02d == BlockUsed => \A i \in DOMAIN Listed(SchemeName(out.scheme)) : DigestGood(Listed(SchemeName(out.scheme))[i])

(* --- C03 --- *)
InRange(id) == HasPair(id) /\ inp.max >= (CASE id = "v2" -> 24 [] id = "v3" -> 28 [] id = "v31" -> 33)
Top == IF InRange("v31") THEN 31 ELSE IF InRange("v3") THEN 3 ELSE IF InRange("v2") THEN 2 ELSE 1
P03 ==
  /\ (Accepted /\ call # "extract" /\ Located) => (out.scheme = Top \/ (out.scheme = 2 /\ Top = 3 /\ GivenLo < 28))
  /\ (Accepted /\ call # "extract" /\ inp.max < 24) => out.scheme = 1
  /\ (Accepted /\ call # "extract" /\ Located) =>
       /\ \A id \in UnknownIds : HasPair(id) <=> id \in out.extra
       /\ \A id \in {"v2", "v3", "v31"} : (HasPair(id) /\ ~InRange(id)) => id \in out.extra
       /\ \A id \in out.extra : HasPair(id)
  (* a block of a scheme newer than the range is never looked into *)
  /\ pc = "signer" => (call = "extract" \/ InRange(PhaseId(w.phase)))

(* --- C04 --- *)
V1Good == w.v1i > 0 /\ ~w.v1err
P04 == (call = "verify" /\ GivenLo <= inp.max) =>
  /\ BlockRes = "rej" => out.res = "rej"
  /\ (BlockRes = "acc" /\ GivenLo >= 24) => (out.res = "acc" /\ w.v1i = 0)
  /\ (Accepted /\ (GivenLo < 24 \/ BlockRes # "acc")) => V1Good
  /\ (V1Good /\ BlockRes = "acc" /\ ~w.merr) => Accepted

(* --- C05 --- *)
(* signature files whose signature verifies *)
DeclaresId(sf, ids) == sf.hasxa /\ \E i \in DOMAIN sf.xa : XaId(sf.xa[i]) \in ids
Newer == IF inp.max >= 28 THEN {2, 3} ELSE {2}
P05 == (call = "verify" /\ Accepted /\ BlockRes # "acc" /\ inp.max >= 24) =>
  \A k \in DOMAIN Signatures(apk.v1) :
    BlockCheck(apk.v1, Signatures(apk.v1)[k], GivenLo, inp.max).st = "ok" => ~DeclaresId(SfOf(apk.v1, Signatures(apk.v1)[k]), Newer)

(* --- C06 --- *)
P06 ==
  /\ (Accepted /\ call # "extract" /\ out.scheme = 2 /\ inp.max >= 28) =>
       \A i \in DOMAIN Listed("v2") : \A j \in DOMAIN Listed("v2")[i].attrs :
         LET t == Listed("v2")[i].attrs[j] IN
           t.t = "strip" => /\ t.v \in {3, 31} /\ HasPair(SchemeName(t.v))
                            /\ ((t.v = 31 /\ inp.max < 33) \/ (t.v = 3 /\ w.demoted))
  /\ (Accepted /\ call # "extract" /\ out.scheme = 3 /\ inp.max >= 33) =>
       \A i \in DOMAIN Listed("v3") : \A j \in DOMAIN Listed("v3")[i].attrs : Listed("v3")[i].attrs[j].t # "rotmin"
  /\ (Accepted /\ call # "extract" /\ out.scheme = 31) =>
       \A i \in DOMAIN Listed("v3") : \A j \in DOMAIN Listed("v3")[i].attrs :
         LET t == Listed("v3")[i].attrs[j] IN
           t.t = "rotmin" => /\ \A k \in DOMAIN Listed("v31") : Listed("v31")[k].omin >= t.v
                             /\ \E k \in DOMAIN Listed("v31") : Listed("v31")[k].omin = t.v

(* --- C07 --- *)
P07 == (Accepted /\ call # "extract" /\ out.scheme = 2 /\ InRange("v3")) =>
  /\ GivenLo < 28 /\ HasPair("v2")
  /\ out.lin = NoLin /\ out.v3certs = <<>> /\ out.v3lin = NoLin
  /\ out.certs = [i \in DOMAIN Listed("v2") |-> Listed("v2")[i].certs]
  /\ "v3" \in out.extra

(* --- C08 --- *)
Points(ss, lo, hi) == {x \in {lo, hi} \cup UNION {{ss[i].omin, ss[i].omax} \cup (IF ss[i].omax < MaxInt THEN {ss[i].omax + 1} ELSE {}) : i \in DOMAIN ss} : lo <= x /\ x <= hi}
CoveredOnce(ss, lo, hi) == \A x \in Points(ss, lo, hi) : Cardinality({i \in DOMAIN ss : ss[i].omin <= x /\ x <= ss[i].omax}) = 1
WellFormed(ss) == \A i \in DOMAIN ss : ss[i].omin = ss[i].smin /\ ss[i].omax = ss[i].smax /\ ss[i].omin >= 1 /\ ss[i].omin <= ss[i].omax
NoOverlap(ss) == \A i, j \in DOMAIN ss : i # j => (ss[i].omax < ss[j].omin \/ ss[j].omax < ss[i].omin)
LowestOf(ss) == CHOOSE x \in {ss[i].omin : i \in DOMAIN ss} : \A i \in DOMAIN ss : ss[i].omin >= x
P08 ==
  /\ (BlockUsed /\ out.scheme = 3) => WellFormed(Listed("v3")) /\ NoOverlap(Listed("v3")) /\ CoveredOnce(Listed("v3"), Max2(GivenLo, 28), inp.max)
  /\ (BlockUsed /\ out.scheme = 31) =>
       /\ WellFormed(Listed("v31")) /\ NoOverlap(Listed("v31")) /\ CoveredOnce(Listed("v31"), inp.max, inp.max)
       /\ WellFormed(Listed("v3")) /\ NoOverlap(Listed("v3")) /\ CoveredOnce(Listed("v3"), Max2(GivenLo, 28), LowestOf(Listed("v31")) - 1)

(* --- C09 --- *)
ProofOK(ns, last) ==
  /\ \A i \in DOMAIN ns : Parses(ns[i].c)
  /\ Cardinality({ns[i].c : i \in DOMAIN ns}) = Len(ns)
  /\ \A i \in 2..Len(ns) : ns[i].pa = ns[i-1].na /\ Genuine(ns[i].k, ns[i].m, ns[i].o, "ok", KeyOf(ns[i-1].c), ns[i-1].na)
  /\ ns # <<>> => ns[Len(ns)].c = last
LinAttrs(s) == {j \in DOMAIN s.attrs : s.attrs[j].t = "lin" /\ s.attrs[j].ver # -1}
LinNodes(ss) == UNION {{ss[i].attrs[j].nodes : j \in {k \in LinAttrs(ss[i]) : \A l \in LinAttrs(ss[i]) : ss[i].attrs[l].nodes # <<>> => l <= k}} : i \in DOMAIN ss}
LineageP(ss, rep) ==
  /\ \A i \in DOMAIN ss : \A j \in LinAttrs(ss[i]) : ss[i].attrs[j].ver = 1 /\ ProofOK(ss[i].attrs[j].nodes, ss[i].certs[1])
  /\ \A n \in LinNodes(ss) : Len(n) <= Len(rep.nodes)
  /\ \A n \in LinNodes(ss) : NodesOut(n) = SubSeq(rep.nodes, 1, Len(n))
  /\ rep.nodes # <<>> => (\E n \in LinNodes(ss) : NodesOut(n) = rep.nodes) /\ rep.min # 0
  /\ rep.nodes = <<>> => \A n \in LinNodes(ss) : n = <<>>
P09 ==
  /\ (BlockUsed /\ out.scheme = 3) => LineageP(Listed("v3"), out.lin)
  /\ (BlockUsed /\ out.scheme = 31) => LineageP(Listed("v31"), out.lin) /\ LineageP(Listed("v3"), out.v3lin)
  /\ (Accepted /\ out.scheme < 3) => out.lin = NoLin

(* --- C10 --- *)
P10 == (BlockUsed /\ out.scheme = 31) =>
  /\ \A id \in {"v3", "v31"} : Listed(id) # <<>> /\ PairOf(id).fr = "ok" /\ \A i \in DOMAIN Listed(id) : WhollySigned(Listed(id)[i]) /\ DigestGood(Listed(id)[i])
  /\ out.certs = [i \in DOMAIN Listed("v31") |-> Listed("v31")[i].certs]
  /\ out.v3certs = [i \in DOMAIN Listed("v3") |-> Listed("v3")[i].certs]

(* --- v1: C11, C12, C13 --- *)
ByV1 == call = "verify" /\ Accepted /\ out.scheme = 1
AndV1 == call = "verify" /\ Accepted /\ V1Good
Outside(n) == ~InMeta(n)
Files == BaseFiles(apk)
EntsFor(n) == {i \in DOMAIN apk.v1.mf.ents : apk.v1.mf.ents[i].n = n}
GoodDs(e) == \E i \in DOMAIN e.ds : e.ds[i].v = "good" /\ e.ds[i].a \in {"sha1", "sha-256", "sha-384", "sha-512"}
P11 == AndV1 =>
  (* every file the archive has is one that was looked at *)
  /\ \A i, j \in DOMAIN Files : (i < j /\ Files[i].n = Files[j].n) => Files[j].dir \/ ~Outside(Files[j].n)
  /\ \A i \in DOMAIN Files : (~Files[i].dir /\ Outside(Files[i].n)) => \E j \in EntsFor(Files[i].n) : GoodDs(apk.v1.mf.ents[j])
  /\ \A j \in DOMAIN apk.v1.mf.ents : apk.v1.mf.ents[j].n \in Names(apk)
  (* one and the same set of signers lists all of them *)
  /\ \A i, j \in DOMAIN Files : (~Files[i].dir /\ Outside(Files[i].n) /\ ~Files[j].dir /\ Outside(Files[j].n)) =>
       ChainSet(apk.v1, w.v1valid, Files[i].n) = ChainSet(apk.v1, w.v1valid, Files[j].n)

(* somebody in the block really signed this signature file *)
SignedBy(v1, k, cert) ==
  \E n \in DOMAIN v1.signers[k].pk.infos :
    LET info == v1.signers[k].pk.infos[n] IN
      /\ info.k = KeyOf(cert) /\ info.o = "this" /\ info.f \in {"ok", "strip"} /\ info.m = info.da
      /\ CertTab[info.cert].iss = CertTab[cert].iss /\ CertTab[info.cert].serial = CertTab[cert].serial
      /\ info.sa.st # "none" => info.sa.md = "good" /\ (inp.max >= 24 => info.sa.ct = "data")
P12 ==
  /\ AndV1 => Len(Signatures(apk.v1)) <= 10
  /\ (call = "verify" /\ out.scheme = 1 /\ Accepted) =>
       /\ out.certs # <<>>
       /\ \A c \in DOMAIN out.certs : \E k \in DOMAIN apk.v1.signers :
            /\ SignedBy(apk.v1, k, out.certs[c][1])
            /\ \E m \in DOMAIN apk.v1.signers[k].pk.certs : apk.v1.signers[k].pk.certs[m] = out.certs[c][1]
            /\ \E m \in DOMAIN apk.v1.signers : LET sf == apk.v1.signers[m].sf IN
                 apk.v1.signers[m].base = apk.v1.signers[k].base /\ sf.st = "ok" /\ sf.ver
                 /\ ((\E d \in DOMAIN sf.whole : sf.whole[d].v = "good") \/ (\E d \in DOMAIN sf.ents : GoodDs(sf.ents[d])))

Order == <<"sha-512", "sha-384", "sha-256", "sha1">>
StrongestDs(ds) == {i \in DOMAIN ds : \E k \in DOMAIN Order : (Order[k] = ds[i].a) /\ (\A j \in DOMAIN ds : \A m \in 1..(k-1) : Order[m] # ds[j].a)}
P13 == AndV1 =>
  \A i \in DOMAIN Files : (~Files[i].dir /\ Outside(Files[i].n)) => \A j \in EntsFor(Files[i].n) :
    LET e == apk.v1.mf.ents[j] IN
      /\ inp.max >= 18 => \A d \in StrongestDs(e.ds) : e.ds[d].v = "good"
      /\ GivenLo < 18 =>
           LET da == IF e.da = <<>> THEN {"sha1"} ELSE {e.da[x] : x \in DOMAIN e.da} IN
             \A d \in DOMAIN e.ds : (e.ds[d].a \in da /\ (GivenLo >= 9 \/ e.ds[d].a \notin {"sha-384", "sha-512"})) => e.ds[d].v = "good"
      /\ \E d \in DOMAIN e.ds : e.ds[d].v = "good"

(* --- C14, C15, C16 --- *)
Target == IF apk.am.tgt # -1 THEN apk.am.tgt ELSE apk.am.min
ManifestRead == call = "verify" /\ (inp.min = AnyMin \/ inp.max >= 26) /\ apk.am.st = "ok" /\ ~AmBad
P14 ==
  /\ (ByV1 /\ ManifestRead) => ~(apk.am.sbx >= 2 /\ inp.max >= 26) /\ ~(Target >= 30 /\ inp.max >= Target)
  /\ (call = "verify" /\ BlockRes = "acc" /\ w.sb.scheme >= 2 /\ (V1Good \/ GivenLo >= 24) /\ ~w.merr) => Accepted
P15 == call = "verify" =>
  /\ (GivenLo > inp.max) => out.res = "rej"
  /\ (Accepted /\ AmBad /\ inp.min = AnyMin) => out.scheme = 1
P16 ==
  /\ out.res = "dex" => call = "verify" /\ DexMagic /\ V1Good
  /\ (call = "verify" /\ out.res = "acc" /\ (out.scheme = 1 \/ GivenLo < 24)) => ~DexMagic

(* --- C17 --- *)
P17 == (BlockUsed \/ (call = "extract" /\ out.res = "acc" /\ apk.v1.st # "ok")) =>
  apk.zip.eocd = "ok" /\ apk.zip.comment # "fake" /\ apk.sb.st = "ok" /\ apk.sb.dmg = "none"

(* --- C19, C20 --- *)
Ids == [c \in {1, 2, 3, 31} |-> IF c = 31 THEN 3 ELSE c]
P19 == (call # "extract" /\ Accepted) =>
  /\ out.stamp.st \in {"ok", "warn"} =>
       /\ HasPair("stamp") /\ out.stamp.cert = PairOf("stamp").stamp.cert
       /\ out.stamp.st = "ok" =>
            LET s == PairOf("stamp").stamp
                key == KeyOf(s.cert)
                right == {i \in DOMAIN s.schemes : s.schemes[i].id = Ids[out.scheme]}
            IN /\ apk.stf = s.cert
               /\ \E i \in right : \E j \in DOMAIN s.schemes[i].sigs : SigVerifies(s.schemes[i].sigs[j], key, s.schemes[i].sigs[j].a)
               /\ s.hasattrs => \E j \in DOMAIN s.asigs : SigVerifies(s.asigs[j], key, s.asigs[j].a)
               /\ out.stamp.lin # <<>> => \E j \in DOMAIN s.attrs : s.attrs[j].t = "slin" /\ ProofOK(s.attrs[j].nodes, s.cert) /\ NodesOut(s.attrs[j].nodes) = out.stamp.lin
               /\ out.stamp.time # 0 => s.hasattrs /\ \E j \in DOMAIN s.attrs : s.attrs[j].t = "time" /\ s.attrs[j].v = out.stamp.time
  /\ (~HasPair("stamp") /\ apk.stf = "absent") => out.stamp.st = "nil"
P20 == (call # "extract" /\ Accepted) =>
  /\ ~HasPair("frost") => out.frost = "nil"
  /\ out.frost = "ok" =>
       LET es == PairOf("frost").frost.entries IN
         \E i \in DOMAIN es : /\ es[i].dis = 0 /\ \A j \in 1..(i-1) : es[j].dis # 0
                              /\ es[i].key < Len(FrostKeys) /\ es[i].hash = "good"
                              /\ \E j \in DOMAIN es : es[j].k = FrostKeys[es[i].key + 1] /\ es[j].f = "ok" /\ es[j].o # "other"

(* --- C25 --- *)
P25 == (call = "extract" /\ out.res = "acc") => out.certs # <<>> \/ HasPair("v31") \/ HasPair("v3") \/ HasPair("v2")

----------------------------------------------------------------------------
(* Relational properties: the same call on an APK changed in a way that must not matter gives the same.   *)
(* inp.ref holds what the call said about the original.                                                    *)
Related == IF "ref" \in DOMAIN inp THEN inp.ref ELSE <<>>
SameAs(r, o) == r.res = o.res /\ r.scheme = o.scheme /\ r.certs = o.certs /\ r.lin = o.lin /\ r.v3certs = o.v3certs
PRel == Related # <<>> => SameAs(Related[1], out)

Holds0 ==
  CASE Prop = "C01" -> P02d [] Prop = "C02" -> P02 /\ P02d [] Prop = "C03" -> P03 [] Prop = "C04" -> P04 [] Prop = "C05" -> P05 [] Prop = "C06" -> P06
    [] Prop = "C07" -> P07 /\ P02 [] Prop = "C08" -> P08 [] Prop = "C09" -> P09 [] Prop = "C10" -> P10 /\ P02 /\ P02d
    [] Prop = "C11" -> P11 [] Prop = "C12" -> P12 [] Prop = "C13" -> P13 [] Prop = "C14" -> P14 [] Prop = "C15" -> P15 [] Prop = "C16" -> P16
    [] Prop = "C17" -> P17 [] Prop = "C18" -> P02 /\ P02d [] Prop = "C19" -> P19 [] Prop = "C20" -> P20 [] Prop = "C25" -> P25 [] OTHER -> TRUE
Holds == (Prop = "C03" /\ pc = "signer" => P03) /\ (Done => Holds0 /\ PRel)

----------------------------------------------------------------------------
(* which parts of an answer the property speaks about *)
Details ==
  CASE Prop = "C02" -> {"scheme", "certs"} [] Prop = "C03" -> {"scheme", "extra"} [] Prop = "C04" -> {"scheme"}
    [] Prop = "C07" -> {"scheme", "certs", "lin", "v3certs"} [] Prop = "C09" -> {"lin", "v3lin"} [] Prop = "C10" -> {"scheme", "certs", "v3certs"}
    [] Prop = "C12" -> {"certs"} [] Prop = "C17" -> {"scheme"} [] Prop = "C18" -> {"scheme", "certs"} [] Prop = "C19" -> {"stamp"} [] Prop = "C20" -> {"frost"}
    [] Prop = "C25" -> {"certs"} [] Prop = "all" -> {"scheme", "certs", "lin", "extra", "v3certs", "v3lin", "stamp", "frost"} [] OTHER -> {}
Keep ==
  {"res"} \cup (IF out.res = "acc" \/ (call = "block" /\ out.res = "notfound" /\ w.loc /\ Prop \in {"C19", "C20"}) THEN Details
                ELSE IF out.res = "dex" THEN Details \cap {"scheme", "certs"} ELSE {})
=============================================================================
