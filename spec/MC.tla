--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* One family of model instances per property: base APKs, what may be done *)
(* to them (edits), and the calls to make.  TLC explores all edits up to   *)
(* Depth (a random Sample of them per state beyond the first level), runs  *)
(* the verifier state machine on each and checks the property (Props) in   *)
(* every state; every completed call is written out to be replayed on the  *)
(* real implementation.                                                    *)
(***************************************************************************)
EXTENDS Props, Json, Randomization

CONSTANTS Depth, Sample

V(rs) == {<<"verify", r[1], r[2]>> : r \in rs}
B(rs) == {<<"block", r[1], r[2]>> : r \in rs}
X == {<<"extract", 0, 0>>}
Case(a, rs) == [apk |-> a, min |-> 0, max |-> 0, rs |-> rs, d |-> 0, ref |-> <<>>]
Cases(as, rs) == {Case(a, rs) : a \in as}

AnyRange == <<AnyMin, MaxInt>>

P2(ss) == Pr("v2", ss)
P3(ss) == Pr("v3", ss)
P31(ss) == Pr("v31", ss)

Rep(n, s) == [i \in 1..n |-> s]

(* commonly used blocks *)
Rsa3 == S3(<<"rsa256">>, "rsaA", 24, MaxInt)
Base31(lo) == <<P3(<<S3(<<"rsa256">>, "rsaA", 24, lo - 1)>>), P31(<<S3(<<"ec256">>, "ecA", lo, MaxInt)>>)>>
Full31 == <<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>
          \o <<P3(<<Sgn(<<"rsa256">>, "rsaA", <<"rsaA">>, 24, 32, <<RotMinAttr(33)>>)>>),
               P31(<<Sgn(<<"ec256">>, "ecA", <<"ecA">>, 33, MaxInt, <<LinAt(MkLin(<<"rsaA", "ecA">>))>>)>>)>>
Multi3 == <<P3(<<S3(<<"rsa256">>, "rsaA", 28, 29), S3(<<"ec256">>, "ecA", 30, 32), S3(<<"rsa512">>, "rsaB", 33, MaxInt)>>)>>
Lin3 == <<P3(<<Sgn(<<"ec256">>, "ecB", <<"ecB">>, 24, MaxInt, <<LinAt(MkLin(<<"ecA", "ecB">>))>>)>>)>>

R2 == {<<24, 27>>}
R3 == {<<28, 32>>}
R31 == {<<28, MaxInt>>}

----------------------------------------------------------------------------
BasesC02 ==
  Cases({ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkN(<<P2(<<S2(<<"rsa256", "rsa512">>, "rsaA")>>)>>),
         ApkN(<<P2(<<S2(<<"ec256", "ec512">>, "ecA")>>)>>), ApkN(<<P2(<<S2(<<"dsa256">>, "dsaB")>>)>>),
         ApkN(<<P2(<<S2(<<"pss512">>, "rsaA"), S2(<<"ec256">>, "ecA")>>)>>),
         [ApkN(<<P2(<<S2(<<"vrsa", "rsa256">>, "rsaA")>>)>>) EXCEPT !.zip = AlignZip],
         ApkN(<<P2(<<Sgn(<<"rsa256">>, "rsaL", <<"leafRA", "rsaA">>, 0, 0, <<>>)>>)>>),
         ApkN(<<P2(Rep(10, S2(<<"ec256">>, "ecA")))>>)}, V({<<24, 27>>}) \cup B({<<AnyMin, MaxInt>>}))
  \cup Cases({ApkN(<<P3(<<Rsa3>>)>>), ApkN(<<P3(<<S3(<<"ec512", "ec256">>, "ecA", 28, MaxInt)>>)>>)}, V({<<28, 32>>}))
  \cup Cases({ApkN(Base31(33))}, V({<<28, MaxInt>>}))
  \cup Cases({ApkN(Multi3)}, B({<<28, 29>>, <<28, 32>>, <<28, MaxInt>>}))
EditsC02(a) == OnSigners(a, SignerSigEdits) \cup OnSigners(a, SignerCertEdits) \cup OnSigners(a, SignerFrEdits) \cup SignerListEdits(a)
  \cup {[a EXCEPT !.sb.pairs[i].fr = f] : i \in {j \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[j])}, f \in {"listTrunc", "tail"}}

(* C01: whose digests must match the file (what the digests bind is Layout.tla's subject) *)
BasesC01 ==
  Cases({ApkN(<<P2(<<S2(<<"rsa256", "rsa512">>, "rsaA"), S2(<<"ec256">>, "ecA")>>), P3(<<Rsa3>>)>>), ApkN(Multi3), ApkN(Full31),
         [ApkN(<<P2(<<S2(<<"vrsa", "rsa256">>, "rsaA"), S2(<<"vec">>, "ecA")>>), P3(<<S3(<<"vec", "ec512">>, "ecA", 24, MaxInt)>>)>>) EXCEPT !.zip = AlignZip]},
        V({<<24, 27>>, <<24, MaxInt>>}) \cup B({<<24, 27>>, <<28, 32>>, <<28, MaxInt>>}))
EditsC01(a) ==
  OnSigners(a, LAMBDA s : {[s EXCEPT !.digs = x] : x \in Drops(s.digs) \cup EditAt(s.digs, DigEdits) \cup Dups(s.digs)})
  \cup OnSigners(a, LAMBDA s : UNION {{NewAlg(s, i, x, d, TRUE) : i \in 1..(Len(s.sigs)+1), d \in {"good", "bad"}} : x \in {"rsa256", "rsa512", "vrsa", "ec256", "ec512", "vec", "pss256"}})
  \cup AlignEdits(a) \cup CommentEdits(a)

(* C03: selection by range *)
AllRanges == {<<AnyMin, MaxInt>>, <<1, 23>>, <<14, 24>>, <<24, 24>>, <<24, 27>>, <<24, 28>>, <<27, 33>>, <<28, 28>>, <<28, 32>>, <<28, 33>>, <<29, 34>>, <<33, 33>>, <<33, MaxInt>>, <<23, 23>>}
BasesC03 ==
  Cases({ApkB(Full31), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), ApkN(Full31), ApkB(<<Px("unkA", "x"), Px("unkB", "yy")>> \o Full31),
         ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<S3(<<"ec256">>, "ecC", 24, 32)>>), P31(<<S3(<<"ec256">>, "ecA", 33, MaxInt)>>)>>),
         ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkB(<<P3(<<Rsa3>>)>>), ApkB(<<>>), Apk(NoBlock, PlainV1)},
        V(AllRanges) \cup B(AllRanges))
EditsC03(a) == PairEdits(a) \cup DupPairEdits(a) \cup Stale(a) \cup StripBlock(a)

(* C04: v1 required exactly when *)
BasesC04 ==
  Cases({ApkB(Full31), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), ApkB(<<P2(<<S2(<<"ec256">>, "ecA")>>)>>), ApkB(<<P3(<<Rsa3>>)>>), ApkB(<<Px("unkA", "x")>>), Apk(NoBlock, PlainV1)},
        V(AllRanges \cup {<<21, 30>>, <<23, 24>>, <<23, 28>>, <<23, 33>>, <<AnyMin, 27>>, <<AnyMin, 23>>}))
V1Breaks(a) ==
  {[a EXCEPT !.v1 = NoV1], [a EXCEPT !.v1.mf.st = "absent"], [a EXCEPT !.v1.signers = <<>>], [a EXCEPT !.v1.mf.bad = "colon"],
   [a EXCEPT !.v1.signers[1].pk.st = "garbage"], [a EXCEPT !.v1.signers[1].pk.infos[1].o = "other"], [a EXCEPT !.v1.signers[1].sf.st = "absent"],
   [a EXCEPT !.v1.mf.ents[1].ds[1].v = "bad"], [a EXCEPT !.files = Append(@, Fl("assets/new.bin", "n"))]}
BlockBreaks(a) ==
  Stale(a) \cup StripBlock(a) \cup PairEdits(a) \cup DmgEdits(a)
  \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.sigs[1].o = "other"], [s EXCEPT !.certs = <<"rsaC">>]})
EditsC04(a) == (IF a.v1.st = "ok" /\ a.v1.signers # <<>> THEN V1Breaks(a) ELSE {}) \cup BlockBreaks(a) \cup {[a EXCEPT !.am.min = x] : x \in {1, 24, 28}}

(* C05: downgrade protection *)
Xa(a, t) == [a EXCEPT !.v1.signers[1].sf.hasxa = TRUE, !.v1.signers[1].sf.xa = t]
BasesC05 ==
  Cases({ApkV1(PlainV1), ApkB(<<Px("unkA", "x")>>), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>),
         Xa(ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), <<"2", "3">>), Xa(ApkB(<<P3(<<Rsa3>>)>>), <<"3">>),
         ApkV1(MkV1(Names0, Sha1Ds, <<V1Sgn("CERT", "rsaA", Names0, Sha1Ds, "sha256"), V1Sgn("OTHER", "ecA", Names0, Sha1Ds, "sha256")>>))},
        V({<<AnyMin, MaxInt>>, <<14, 23>>, <<14, 24>>, <<21, 27>>, <<21, 28>>, <<24, 27>>, <<28, 33>>, <<23, 33>>}))
EditsC05(a) == OnSf(a, XaEdits) \cup StripBlock(a) \cup DmgEdits(a) \cup {[a EXCEPT !.sb.pairs = x] : x \in Drops(a.sb.pairs)} \cup {[a EXCEPT !.zip.eocd = x] : x \in {"zip64"}}

(* C06: stripping protection inside signers *)
BasesC06 ==
  Cases({ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>),
         ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<[Rsa3 EXCEPT !.sigs[1].o = "other"]>>)>>),
         ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA"), S2(<<"ec256">>, "ecA")>>), P31(<<S3(<<"ec256">>, "ecA", 33, MaxInt)>>)>>),
         ApkN(<<P2(<<Sgn(<<"rsa256">>, "rsaA", <<"rsaA">>, 0, 0, <<Strip(3)>>)>>), P3(<<Rsa3>>)>>),
         ApkN(<<P3(<<Rsa3>>)>>), ApkN(Full31), ApkN(Base31(34)), ApkN(Multi3)},
        B({<<AnyMin, MaxInt>>, <<24, 27>>, <<24, 28>>, <<24, 32>>, <<24, 33>>, <<28, 28>>, <<28, 32>>, <<28, 33>>, <<33, MaxInt>>})
        \cup V({<<24, 27>>, <<24, MaxInt>>, <<28, 33>>}))
EditsC06(a) ==
  OnSigners(a, LAMBDA s : {[s EXCEPT !.attrs = x] : x \in Drops(s.attrs) \cup InsAny(s.attrs, StripAttrs \cup RotAttrs \cup BadAttrs) \cup EditAt(s.attrs, LAMBDA t : IF t.t = "lin" THEN {} ELSE ValueAttrEdits(t))})
  \cup {[a EXCEPT !.sb.pairs = x] : x \in Drops(a.sb.pairs)}
  \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.omin = x, !.smin = x] : x \in {32, 33, 34, 35}})

(* C07: fallback *)
BasesC07 ==
  Cases({ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<S3(<<"ec256">>, "ecB", 24, MaxInt)>>)>>),
         ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>> \o Lin3), ApkB(<<P2(<<S2(<<"ec512">>, "ecC")>>)>> \o Multi3), ApkB(Full31), ApkB(Lin3)},
        V({<<AnyMin, MaxInt>>, <<14, 28>>, <<24, 28>>, <<27, 28>>, <<28, 28>>, <<24, 32>>, <<27, 33>>, <<28, 32>>, <<28, MaxInt>>})
        \cup B({<<AnyMin, MaxInt>>, <<27, 32>>, <<28, 32>>, <<14, 23>>}))
EditsC07(a) ==
  Stale(a) \cup {[a EXCEPT !.sb.pairs = x] : x \in Drops(a.sb.pairs)}
  \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.sigs[1].o = "other"], [s EXCEPT !.certs = <<"rsaC">>], [s EXCEPT !.pub = "junk"], [s EXCEPT !.omin = 1000, !.smin = 1000],
                                [s EXCEPT !.omax = 30], [s EXCEPT !.omin = 30, !.smin = 30], [s EXCEPT !.fr = "sdTrunc"], [s EXCEPT !.attrs = Append(@, Strip(3))],
                                [s EXCEPT !.attrs = Append(@, At("trunc", 0))], [s EXCEPT !.attrs = Append(@, LinAt(MkLin(<<"ecA", "ecC">>)))]})
  \cup SignerListEdits(a)
  \cup {[a EXCEPT !.sb.pairs[i].fr = f] : i \in {j \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[j])}, f \in {"empty", "listTrunc", "tail"}}

(* C08: SDK ranges of v3 signers *)
BasesC08 ==
  Cases({ApkN(<<P3(<<Rsa3>>)>>), ApkN(Multi3), ApkN(<<P3(<<S3(<<"rsa512">>, "rsaB", 33, MaxInt), S3(<<"rsa256">>, "rsaA", 28, 32)>>)>>)},
        B({<<AnyMin, MaxInt>>, <<24, 28>>, <<28, 28>>, <<28, 29>>, <<28, 32>>, <<29, 34>>, <<30, 32>>, <<32, 33>>, <<33, 33>>, <<34, MaxInt>>, <<AnyMin, 27>>}))
  \cup Cases({ApkN(Base31(33)), ApkN(Full31), ApkN(Base31(35)),
              ApkN(<<P3(<<S3(<<"rsa256">>, "rsaA", 24, 32)>>), P31(<<S3(<<"ec256">>, "ecA", 33, 34), S3(<<"ec256">>, "ecB", 35, MaxInt)>>)>>)},
        B({<<AnyMin, MaxInt>>, <<28, 33>>, <<28, 34>>, <<32, 33>>, <<33, 33>>, <<33, 40>>, <<34, MaxInt>>, <<28, 32>>}))
EditsC08(a) == OnSigners(a, SignerSdkEdits)
  \cup {[a EXCEPT !.sb.pairs[i].signers = x] : <<i, x>> \in UNION {{<<i, x>> : x \in Drops(a.sb.pairs[i].signers) \cup Swaps(a.sb.pairs[i].signers) \cup Dups(a.sb.pairs[i].signers)} : i \in DOMAIN a.sb.pairs}}

(* C09: lineage *)
BasesC09 ==
  Cases({ApkN(Lin3),
         ApkN(<<P3(<<Sgn(<<"ec256">>, "ecB", <<"ecB">>, 28, 30, <<LinAt(MkLin(<<"ecA", "ecB">>))>>),
                     Sgn(<<"ec512">>, "ecB", <<"ecB">>, 31, MaxInt, <<LinAt(MkLin(<<"ecA", "ecB">>))>>)>>)>>),
         ApkN(<<P3(<<Sgn(<<"rsa256">>, "rsaB", <<"rsaB">>, 24, MaxInt, <<LinAt(MkLin(<<"rsaA", "ecA", "rsaB">>))>>)>>)>>),
         ApkN(<<P3(<<Sgn(<<"ec256">>, "ecA", <<"ecA">>, 28, 30, <<LinAt(MkLin(<<"rsaA", "ecA">>))>>),
                     Sgn(<<"ec256">>, "ecB", <<"ecB">>, 31, MaxInt, <<LinAt(MkLin(<<"rsaA", "ecA", "ecB">>))>>)>>)>>),
         ApkN(<<P3(<<S3(<<"rsa256">>, "rsaA", 28, 29), Sgn(<<"ec256">>, "ecA", <<"ecA">>, 30, MaxInt, <<LinAt(MkLin(<<"rsaA", "ecA">>))>>)>>)>>)},
        B({<<28, MaxInt>>, <<AnyMin, 32>>}))
  \cup Cases({ApkN(Full31)}, B({<<28, MaxInt>>, <<AnyMin, 33>>}))
EditsC09(a) == OnSigners(a, SignerLinEdits) \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.certs = <<c>>] : c \in {"ecA2", "ecB"}})
  \cup {[a EXCEPT !.sb.pairs[i].signers = x] : <<i, x>> \in UNION {{<<i, x>> : x \in Drops(a.sb.pairs[i].signers) \cup Swaps(a.sb.pairs[i].signers)} : i \in DOMAIN a.sb.pairs}}

(* C10: v3.1 needs v3.0 *)
BasesC10 ==
  Cases({ApkN(Base31(33)), ApkN(Full31), ApkB(Full31), ApkN(Base31(34)),
         ApkN(<<P3(<<S3(<<"rsa512">>, "rsaA", 24, 32)>>), P31(<<S3(<<"ec256">>, "ecA", 33, MaxInt)>>)>>),
         ApkN(<<P3(<<S3(<<"rsa256">>, "rsaA", 24, 32)>>), P31(<<S3(<<"ec512", "ec256">>, "ecA", 33, 33), S3(<<"ec512">>, "ecB", 34, MaxInt)>>)>>)},
        V({<<24, MaxInt>>, <<28, MaxInt>>, <<28, 33>>, <<33, 33>>}) \cup B({<<AnyMin, MaxInt>>, <<28, 34>>, <<28, 32>>}))
EditsC10(a) ==
  Stale(a) \cup {[a EXCEPT !.sb.pairs = x] : x \in Drops(a.sb.pairs) \cup Swaps(a.sb.pairs)} \cup SignerListEdits(a)
  \cup {[a EXCEPT !.sb.pairs[i].fr = f] : i \in {j \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[j])}, f \in {"empty", "listTrunc", "tail"}}
  \cup OnSigners(a, LAMBDA s :
        {[s EXCEPT !.sigs[1].o = "other"], [s EXCEPT !.digs[1].d = "bad"], [s EXCEPT !.digs[1].d = "badtail"], [s EXCEPT !.certs = <<"rsaC">>], [s EXCEPT !.digs = <<>>], [s EXCEPT !.sigs = <<>>, !.digs = <<>>],
         [s EXCEPT !.omin = 1000], [s EXCEPT !.attrs = Append(@, At("trunc", 0))], [s EXCEPT !.sigs[1].a = "unkX", !.digs[1].a = "unkX"],
         NewAlg(s, 1, "rsa512", "bad", TRUE), NewAlg(s, 1, "ec512", "bad", TRUE)})

----------------------------------------------------------------------------
(* v1 *)
TwoV1 == MkV1(Names0, Sha1Ds, <<V1Sgn("CERT", "rsaA", Names0, Sha1Ds, "sha256"), V1Sgn("OTHER", "ecA", Names0, Sha1Ds, "sha256")>>)
RV1 == {<<AnyMin, MaxInt>>, <<14, 23>>, <<18, 23>>, <<9, 17>>}
WithAm24(a) == [a EXCEPT !.am = AmOf(14, 23, -1)]
WithFiles(v1, fs) == [ApkV1(v1) EXCEPT !.files = fs]
NFiles == Files0 \o <<Fl("META-INF/note.txt", "note"), Fl("META-INF/services/x", "svc")>>
BasesC11 ==
  Cases({ApkV1(PlainV1), WithFiles(PlainV1, NFiles), ApkV1(TwoV1),
         WithFiles(MkV1(<<"AndroidManifest.xml">>, Sha1Ds, <<V1Sgn("CERT", "rsaA", <<"AndroidManifest.xml">>, Sha1Ds, "sha1")>>), <<>>),
         [ApkV1(MkV1(Names0, Sha256Ds, <<V1Sgn("CERT", "rsaA", Names0, Sha256Ds, "sha256")>>)) EXCEPT !.am = AmOf(18, 27, -1)]},
        V({<<AnyMin, MaxInt>>, <<14, 23>>, <<18, 27>>}))
(* two signers with the same certificate and one with another, each listing some of the files *)
Listing(key, base, names) == V1Sgn(base, key, names, Sha1Ds, "sha256")
ThreeV1 ==
  {ApkV1(MkV1(Names0, Sha1Ds, x)) : x \in
    {<<Listing("rsaA", "A", Names0), Listing("rsaA", "B", SubSeq(Names0, 1, 1)), Listing("ecA", "C", SubSeq(Names0, 2, 3))>>,
     <<Listing("rsaA", "A", Names0), Listing("rsaA", "B", SubSeq(Names0, 2, 3)), Listing("ecA", "C", SubSeq(Names0, 1, 1))>>,
     <<Listing("rsaA", "A", Names0), Listing("rsaA", "B", SubSeq(Names0, 3, 3)), Listing("ecA", "C", SubSeq(Names0, 1, 2))>>,
     <<Listing("ecA", "A", SubSeq(Names0, 1, 2)), Listing("rsaA", "B", SubSeq(Names0, 3, 3)), Listing("rsaA", "C", Names0)>>,
     <<Listing("rsaA", "A", Names0), Listing("rsaA", "B", Names0), Listing("ecA", "C", Names0)>>,
     <<Listing("rsaA", "A", Names0), Listing("ecA", "B", Names0), Listing("rsaB", "C", Names0)>>}}
(* two signers by the same or another certificate, with more or less of its chain, each listing any of the files *)
ChainCerts == {<<"rsaA">>, <<"leafEA">>, <<"leafEA", "interEA">>, <<"leafEA", "interE2">>, <<"leafEA", "interEA", "ecA">>}
ChainSigner(c, base, names) ==
  IF c = <<"rsaA">> THEN Listing("rsaA", base, names)
  ELSE [V1Sgn(base, "ecA", names, Sha1Ds, "sha256") EXCEPT !.pk = [@ EXCEPT !.certs = c, !.infos = <<Info1("sha256", "ec", "ecL", "leafEA")>>]]
SubNames == {SelectSeq(Names0, LAMBDA n : n \in x) : x \in SUBSET Range(Names0)}
ChainCovers == {ApkV1(MkV1(Names0, Sha1Ds, <<ChainSigner(c, "A", x), ChainSigner(d, "B", y)>>)) : c, d \in ChainCerts, x, y \in SubNames}
(* archives with and without the files one of which has to be there, listed or not *)
OneOf == <<"classes.dex", "BundleConfig.pb", "META-INF/note.txt", "AndroidManifest.xml">>
Manned ==
  {LET all == SelectSeq(OneOf, LAMBDA n : n \in ls)
       fs == SelectSeq(OneOf, LAMBDA n : n \in x /\ n # "AndroidManifest.xml")
   IN [ApkV1(MkV1(all, Sha1Ds, <<V1Sgn("CERT", "rsaA", all, Sha1Ds, "sha256")>>)) EXCEPT
        !.files = [i \in DOMAIN fs |-> Fl(fs[i], "a")], !.am.st = IF "AndroidManifest.xml" \in x THEN "ok" ELSE "absent"] :
     x, ls \in SUBSET Range(OneOf)}
MfNameEdits(a) ==
  {[a EXCEPT !.v1.mf.ents = Append(@, En(n, Sha1Ds))] : n \in {"assets/gone.bin", "META-INF/note.txt", "META-INF/gone.txt"}}
  \cup {[a EXCEPT !.v1.mf.ents = Append(@, En(n, Sha1Ds)), !.v1.signers = [i \in DOMAIN @ |-> [@[i] EXCEPT !.sf.ents = Append(@, En(n, Sha1Ds))]]] : n \in {"assets/gone.bin", "META-INF/note.txt"}}
EditsC11(a) ==
  FileEdits(a) \cup DupFileEdits(a) \cup MfNameEdits(a) \cup {[a EXCEPT !.v1.mf.ents = x] : x \in Drops(a.v1.mf.ents)}
  \cup {[a EXCEPT !.v1.mf.ents[i].ds[1].v = v] : i \in DOMAIN a.v1.mf.ents, v \in Vals}
  \cup OnSf(a, LAMBDA sf : {[sf EXCEPT !.ents = x] : x \in Drops(sf.ents)})

(* signtool leaves the blank line out of the digest of a section, where lines end in LF *)
ToolLf == ApkV1([PlainV1 EXCEPT !.signers[1].sf.tool = TRUE, !.signers[1].sf.whole = <<>>, !.fmt.eol = "lf"])
BasesC12 ==
  Cases({ApkV1(PlainV1), ApkV1(TwoV1), ApkV1([PlainV1 EXCEPT !.signers[1].pk.infos[1].sa = Sa0, !.signers[1].sf.mainds = Sha1Ds]),
         ApkV1(MkV1(Names0, Sha1Ds, <<V1Sgn("CERT", "dsaA", Names0, Sha1Ds, "sha1")>>)), ApkV1(MkV1(Names0, Sha1Ds, <<V1Sgn("CERT", "dsaB", Names0, Sha1Ds, "sha1")>>)),
         ApkV1([PlainV1 EXCEPT !.signers[1].pk.certs = <<"interEA", "ecA", "leafEA">>, !.signers[1].pk.infos = <<Info1("sha256", "ec", "ecL", "leafEA")>>]),
         ApkV1([PlainV1 EXCEPT !.signers[1].pk.certs = <<"rsaB", "rsaA", "fakeRA">>]),
         ApkV1([PlainV1 EXCEPT !.signers[1].pk.certs = <<"rsaA", "ecA">>, !.signers[1].pk.infos = <<Info1("sha1", "ec", "ecA", "ecA"), Info1("sha256", "rsa", "rsaA", "rsaA")>>]),
         ToolLf},
        V({<<AnyMin, MaxInt>>, <<14, 23>>, <<24, 27>>}))
EditsC12(a) == OnSf(a, SfEdits) \cup OnPk(a, PkEdits) \cup SignersEdits(a)
  \cup {[a EXCEPT !.v1.signers = Append(@, [V1Sgn("EXTRA", "ecB", Names0, Sha1Ds, "sha256") EXCEPT !.pk.infos[1].o = o])] : o \in {"this", "other"}}
  \cup {[a EXCEPT !.v1.signers = [i \in 1..n |-> [@[1] EXCEPT !.base = "S" \o ToString(i)]]] : n \in {10, 11}}

DsSets == {<<>>} \cup {<<D(x, v)>> : x \in DsAlgs, v \in {"good", "bad"}} \cup {<<D(x, u), D(y, v)>> : x, y \in {"sha", "sha1", "sha-256", "sha-512", "md5"}, u, v \in {"good", "bad"}}
DsSets1 == {d \in DsSets : Len(d) < 2 \/ d[1].a # d[2].a}
BasesC13 ==
  Cases({ApkV1(PlainV1), ApkV1([PlainV1 EXCEPT !.signers[1].sf.whole = <<>>])},
        V({<<1, 8>>, <<8, 17>>, <<9, 17>>, <<14, 23>>, <<17, 18>>, <<18, 23>>, <<24, 27>>, <<1, 27>>}))
EditsC13(a) ==
  {[a EXCEPT !.v1.mf.ents[1] = [n |-> @.n, da |-> da, ds |-> ds]] : da \in DaToks, ds \in DsSets1}
  \cup {[a EXCEPT !.v1.signers[1].sf.whole = ds] : ds \in DsSets1}
  \cup {[a EXCEPT !.v1.signers[1].sf.ents[1].ds = ds] : ds \in DsSets1}
  \cup {[a EXCEPT !.v1.signers[1].sf.mainds = ds] : ds \in DsSets1}
  \cup {[a EXCEPT !.v1.signers[1].sf.da = da] : da \in DaToks}

(* C14, C15, C16: manifest and prefix *)
BasesC14 ==
  Cases({ApkV1(PlainV1), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkB(<<Px("unkA", "x")>>)},
        V({<<AnyMin, MaxInt>>, <<AnyMin, 23>>, <<AnyMin, 25>>, <<AnyMin, 26>>, <<14, 25>>, <<14, 26>>, <<14, 29>>, <<14, 30>>, <<14, 31>>, <<21, 33>>, <<24, 28>>, <<24, 30>>, <<26, 33>>}))
EditsC14(a) == AmEdits(a) \cup {[a EXCEPT !.am = AmOf(14, t, s)] : t \in {-1, 29, 30, 31, 33}, s \in {-1, 1, 2, 3}} \cup StripBlock(a) \cup Stale(a)

BasesC15 ==
  Cases({ApkV1(PlainV1), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<[Rsa3 EXCEPT !.sigs[1].o = "other"]>>)>>),
         ApkN(<<P3(<<S3(<<"rsa256">>, "rsaA", 30, MaxInt)>>)>>)},
        V({<<AnyMin, MaxInt>>, <<AnyMin, 22>>, <<AnyMin, 26>>, <<AnyMin, 28>>, <<AnyMin, 33>>, <<1, MaxInt>>, <<14, 25>>, <<24, 24>>, <<24, 26>>, <<24, MaxInt>>, <<28, 27>>, <<30, 33>>, <<28, MaxInt>>, <<30, 29>>, <<MaxInt, 33>>, <<1, 0>>, <<0, 30>>}))
EditsC15(a) == AmEdits(a) \cup {[a EXCEPT !.am = AmOf(m, -1, -1)] : m \in {-1, 1, 23, 24, 27, 28, 30, 31}}

BasesC16 ==
  Cases({ApkV1(PlainV1), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkB(<<P3(<<Rsa3>>)>>), ApkB(<<Px("unkA", "q")>>)},
        V({<<AnyMin, MaxInt>>, <<14, 23>>, <<14, 28>>, <<24, 27>>, <<24, MaxInt>>, <<28, 33>>}))
EditsC16(a) ==
  PrefixEdits(a) \cup Stale(a) \cup StripBlock(a) \cup (IF a.v1.st = "ok" THEN {[a EXCEPT !.v1.mf.ents[1].ds[1].v = "bad"], [a EXCEPT !.v1.signers[1].pk.infos[1].o = "other"], [a EXCEPT !.v1.mf.st = "absent"], Xa(a, <<"2">>)} ELSE {})
  \cup {[a EXCEPT !.am.sbx = 2], [a EXCEPT !.am.st = "bad"], [a EXCEPT !.am.min = 28], [a EXCEPT !.am.tgt = 30]} \cup {[a EXCEPT !.files = <<Fl("classes.dex", "dexhdr")>> \o SubSeq(@, 2, Len(@))]}

(* C17: locating and splitting *)
Large(a) == [a EXCEPT !.files = <<[n |-> "first", c |-> "n:70000:p", z |-> "store", dir |-> FALSE]>> \o @]
BasesC17 ==
  Cases({ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkN(Full31), [ApkN(<<P2(<<S2(<<"vrsa">>, "rsaA")>>)>>) EXCEPT !.zip = AlignZip], ApkN(<<>>), ApkN(<<Px("pad", ""), P2(<<S2(<<"rsa256">>, "rsaA")>>)>>)},
        V({<<24, 27>>, <<24, MaxInt>>}) \cup B({<<AnyMin, MaxInt>>, <<24, 27>>}))
  \cup Cases({ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkB(Full31)}, B({<<AnyMin, MaxInt>>, <<24, 27>>}))
  (* larger than the longest comment *)
  \cup Cases({Large(ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>))}, B({<<24, 27>>}))
EditsC17(a) == DmgEdits(a) \cup EocdEdits(a) \cup CommentEdits(a) \cup PairEdits(a) \cup DupPairEdits(a) \cup AlignEdits(a) \cup PrefixEdits(a)

(* damaged blocks in APKs that also have a v1 signature *)
V1Located == Cases({ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), Xa(ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), <<"2">>)}, V({<<AnyMin, MaxInt>>, <<24, 27>>, <<14, 23>>}))
EditsV1Located(a) == DmgEdits(a) \cup {[a EXCEPT !.zip.eocd = "zip64"]} \cup {x \in CommentEdits(a) : x.zip.comment # "magic"}

(* C18: unknown extensions *)
C18Algs == <<"unkX", "unkY", "unkZ">>
BasesC18 ==
  Cases({ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkN(<<P2(<<S2(<<"rsa512", "rsa256">>, "rsaA")>>), P3(<<S3(<<"ec512">>, "ecA", 24, MaxInt)>>)>>),
         [ApkN(<<P2(<<S2(<<"rsa256", "vrsa">>, "rsaA")>>)>>) EXCEPT !.zip = AlignZip], ApkN(Full31),
         ApkN(<<P3(<<S3(<<"unkX", "pss256", "pss512">>, "rsaA", 24, MaxInt)>>)>>)},
        V({<<24, 27>>, <<24, MaxInt>>, <<28, 32>>}) \cup B({<<AnyMin, MaxInt>>}))
EditsC18(a) == UnknownPairEdits(a) \cup OnSigners(a, AlgEdits)
  \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.attrs = x] : x \in InsAny(s.attrs, TolerableAttrs)})
  \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.sigs[i].o = "other"] : i \in DOMAIN s.sigs} \cup {[s EXCEPT !.sigs[i].f = f] : i \in DOMAIN s.sigs, f \in {"garbage", "badlen", "none"}}
                               \cup {[s EXCEPT !.digs[i].d = "bad"] : i \in DOMAIN s.digs})

(* C19: stamps *)
StA == MkStamp("ecC", <<1, 2, 3>>, "ec256", <<TimeAt(1600000000)>>)
StLin == MkStamp("ecC", <<1, 2, 3>>, "ec256", <<TimeAt(1600000000), SLinAt(MkLin(<<"ecB", "ecC">>))>>)
WithStamp(a, st) == [a EXCEPT !.stf = st.cert, !.sb.pairs = Append(@, Pstamp(st)), !.v1 =
   IF a.v1.st = "ok" THEN MkV1(Append(Names0, "stamp-cert-sha256"), Sha1Ds, <<V1Sgn("CERT", "rsaA", Append(Names0, "stamp-cert-sha256"), Sha1Ds, "sha256")>>) ELSE a.v1]
BasesC19 ==
  Cases({WithStamp(ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), StA), WithStamp(ApkB(<<P2(<<S2(<<"rsa256", "rsa512">>, "rsaA")>>), P3(<<Rsa3>>)>>), StLin),
         WithStamp(ApkB(<<>>), StA), WithStamp(ApkN(Full31), StLin), ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>),
         WithStamp(ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA"), S2(<<"rsa512">>, "rsaB")>>)>>), StA),
         [WithStamp(ApkN(<<P2(<<S2(<<"vrsa">>, "rsaA"), S2(<<"rsa512">>, "rsaB"), S2(<<"ec256">>, "ecA")>>), P3(<<S3(<<"rsa512", "vrsa">>, "rsaA", 28, MaxInt)>>)>>), StA) EXCEPT !.zip = AlignZip],
         WithStamp(ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), [MkStamp("rsaB", <<2, 3>>, "rsa256", <<>>) EXCEPT !.hasattrs = FALSE])},
        B({<<24, 27>>, <<24, 32>>, <<28, MaxInt>>}) \cup V({<<AnyMin, MaxInt>>, <<14, 23>>, <<24, 27>>}))
EditsC19(a) == OnStamp(a) \cup DupPairEdits(a) \cup Stale(a) \cup SignerListEdits(a)

(* C20: frosting *)
Fr0 == MkFrost(<<FrostEntry("good")>>)
Fr2 == MkFrost(<<[FrostEntry("bad") EXCEPT !.dis = 1], FrostEntry("good"), [FrostEntry("bad") EXCEPT !.k = "frost2"]>>)
WithFrost(a, f) == [a EXCEPT !.sb.pairs = Append(@, Pfrost(f))]
BasesC20 ==
  Cases({WithFrost(ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), f) : f \in {Fr0, Fr2, MkFrost(<<[FrostEntry("good") EXCEPT !.key = 1, !.k = "frost2"]>>)}}
        \cup {WithFrost(ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>), Fr2), WithFrost(ApkN(<<P3(<<Rsa3>>)>>), Fr0), ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>)},
        B({<<24, 27>>, <<28, MaxInt>>, <<1, 23>>}) \cup V({<<24, MaxInt>>}))
EditsC20(a) == OnFrost(a) \cup DupPairEdits(a) \cup CommentEdits(a) \cup {[a EXCEPT !.sb.pairs = x] : x \in Swaps(a.sb.pairs) \cup InsAny(a.sb.pairs, {Px("unkA", "x")})} \cup Stale(a)
  \cup {[a EXCEPT !.sb.pairs[i].signers = <<>>] : i \in {j \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[j])}}
  \cup {[a EXCEPT !.sb.pairs[i].fr = f] : i \in {j \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[j])}, f \in {"empty", "listTrunc", "tail"}}

(* C25: extraction *)
BasesC25 ==
  Cases({ApkB(Full31), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA"), Sgn(<<"rsa256">>, "rsaL", <<"leafRA", "rsaA">>, 0, 0, <<>>)>>), P3(<<Rsa3>>)>>), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>),
         ApkN(Multi3), ApkV1(PlainV1), ApkV1(TwoV1), ApkV1([PlainV1 EXCEPT !.signers[1].pk.certs = <<"interEA", "ecA", "leafEA">>, !.signers[1].pk.infos = <<Info1("sha256", "ec", "ecL", "leafEA")>>]), ApkN(Lin3)},
        X \cup V({AnyRange}))
EditsC25(a) == Stale(a) \cup DupPairEdits(a) \cup StripBlock(a) \cup PairEdits(a) \cup SignerListEdits(a) \cup {[a EXCEPT !.v1 = NoV1]}
  \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.sigs[1].o = "other"], [s EXCEPT !.certs = <<"rsaC">>], [s EXCEPT !.certs = <<"junk">>]})
  \cup (IF a.v1.st = "ok" /\ a.v1.signers # <<>> THEN {[a EXCEPT !.v1.signers[1].pk.st = "garbage"], [a EXCEPT !.v1.signers[1].pk.infos[1].o = "other"], [a EXCEPT !.v1.signers[1].sf.ents[1].ds[1].v = "bad"],
         [a EXCEPT !.v1.mf.ents[1].ds[1].v = "bad"], [a EXCEPT !.v1.mf.st = "absent"], [a EXCEPT !.v1.signers[1].sf.st = "absent"], [a EXCEPT !.v1.signers = <<>>]} \cup SignersEdits(a) ELSE {})

(* C29: spellings *)
LongName == "assets/a-rather-long-directory-name-to-force-continuation-lines/and-another-one-of-these/file-with-a-long-name.bin"
UniName == "assets/~uni~.txt"
NamesL == Names0 \o <<LongName, UniName>>
BasesC29 ==
  Cases({ApkV1(PlainV1), WithFiles(MkV1(NamesL, Sha256Ds, <<V1Sgn("CERT", "rsaA", NamesL, Sha256Ds, "sha256")>>), Files0 \o <<Fl(LongName, "l"), Fl(UniName, "u")>>),
         ApkV1([PlainV1 EXCEPT !.signers[1].sf.whole = <<>>]),
         Xa(ApkV1([PlainV1 EXCEPT !.signers[1].sf.mainds = Sha1Ds]), <<"2", "3">>),
         ApkV1([TwoV1 EXCEPT !.mf.ents[1].da = <<"sha-256">>, !.mf.ents[1].ds = <<D("sha-256", "good"), D("sha1", "bad")>>]),
         ApkV1([PlainV1 EXCEPT !.signers[1].sf.tool = TRUE]), ApkV1([PlainV1 EXCEPT !.signers[1].sf.tool = TRUE, !.signers[1].sf.whole = <<>>]), ToolLf},
        V({<<18, MaxInt>>, <<14, 23>>, <<9, 17>>, <<18, 23>>}))
EditsC29(a) == FmtEdits(a) \cup BadEdits(a)

----------------------------------------------------------------------------
(* Every SDK range at which something may change, on APKs taken as they are (no edits) *)
SweepLevels == {AnyMin, 1, 8, 9, 10, 17, 18, 19} \cup (22..36) \cup {MaxInt}
SweepRanges == {r \in SweepLevels \X SweepLevels : r[1] <= r[2]}
ApksOf(cs) == {c.apk : c \in cs}
FewAttrs(a) == {a} \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.attrs = Append(@, t)] : t \in {Strip(3), RotMinAttr(33), RotMinAttr(34)}})
V2V3 == ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>), P3(<<Rsa3>>)>>)
V1With(ds, da) == ApkV1([PlainV1 EXCEPT !.mf.ents[1].ds = ds, !.mf.ents[1].da = da])
SweepApks ==
  CASE Prop = "C03" -> ApksOf(BasesC03)
    [] Prop = "C04" -> ApksOf(BasesC04) \cup UNION {{[a EXCEPT !.v1 = NoV1]} \cup Stale(a) : a \in {ApkB(Full31), V2V3}} \cup {[V2V3 EXCEPT !.am.min = m] : m \in {23, 24, 27, 28, 29}}
    [] Prop = "C05" -> {Xa(x, t) : x \in {ApkV1(PlainV1)} \cup Stale(V2V3), t \in {<<"2">>, <<"3">>, <<"2", "3">>, <<"31">>}} \cup {Xa(V2V3, <<"2", "3">>)}
    [] Prop = "C06" -> UNION {FewAttrs(a) : a \in {ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkN(<<P3(<<Rsa3>>)>>), ApkN(Full31)}}
    [] Prop = "C07" -> UNION {{a} \cup Stale(a) : a \in {ApkB(Full31), V2V3}} \cup OnSigners(V2V3, LAMBDA s : {[s EXCEPT !.sigs[1].o = "other"]}) \cup OnSigners(ApkB(Full31), LAMBDA s : {[s EXCEPT !.sigs[1].o = "other"]})
    [] Prop = "C08" -> ApksOf(BasesC08) \cup {ApkN(<<P3(<<S3(<<"rsa256">>, "rsaA", lo, hi)>>)>>) : <<lo, hi>> \in {<<24, 32>>, <<28, 30>>, <<29, MaxInt>>, <<1, 27>>, <<30, 30>>}}
    [] Prop = "C10" -> ApksOf(BasesC10) \cup {ApkN(<<Full31[1], Full31[3]>>), ApkN(Base31(36))}
    [] Prop = "C12" -> {ApkV1([PlainV1 EXCEPT !.signers[1].pk.infos = x]) : x \in
                          LET g == PlainV1.signers[1].pk.infos[1] IN {<<g>>, <<[g EXCEPT !.o = "other"], g>>, <<g, [g EXCEPT !.o = "other"]>>, <<[g EXCEPT !.sa = [Sa0 EXCEPT !.ct = "other"]], g>>,
                             <<[g EXCEPT !.sa = [Sa0 EXCEPT !.ct = "other"]]>>, <<[g EXCEPT !.sa = [Sa0 EXCEPT !.ct = "absent"]]>>, <<[g EXCEPT !.sa = Sa0]>>}}
    [] Prop = "C13" -> {V1With(ds, da) : ds \in {<<D("sha1", "good"), D("sha-256", "bad")>>, <<D("sha1", "bad"), D("sha-256", "good")>>, <<D("sha-256", "good"), D("sha-512", "bad")>>, <<D("sha-384", "good"), D("sha-512", "good")>>,
                                                 <<D("sha1", "bad"), D("sha-384", "good")>>}, da \in {<<>>, <<"sha-256">>, <<"sha-512", "sha-384">>, <<"sha1", "sha-384">>}}
    [] Prop = "C14" -> {[x EXCEPT !.am = AmOf(1, t, b)] : x \in {ApkV1(PlainV1), V2V3}, t \in {-1, 26, 29, 30, 31, 33}, b \in {-1, 1, 2}}
    [] Prop = "C15" -> {}
    [] Prop = "C16" -> UNION {PrefixEdits(a) : a \in {ApkV1(PlainV1), ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), ApkB(<<P3(<<Rsa3>>)>>)}}
    [] Prop = "C18" -> ApksOf(BasesC18)
    [] Prop = "C19" -> ApksOf(BasesC19)
    [] Prop = "C20" -> ApksOf(BasesC20)
    [] OTHER -> {}
SweepKinds == (IF Prop \notin {"C08", "C20"} THEN {"verify"} ELSE {}) \cup (IF Prop \in {"C03", "C06", "C07", "C08", "C10", "C19", "C20"} THEN {"block"} ELSE {})
SweepCases == {[Case(a, {<<k, r[1], r[2]>> : k \in SweepKinds, r \in SweepRanges}) EXCEPT !.d = Depth + 1] : a \in SweepApks}
Huge(a, n) == [a EXCEPT !.files = Append(@, [n |-> "assets/huge.bin", c |-> n, z |-> "store", dir |-> FALSE])]
SeqsOf(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
(* signers one after another, each with a lineage of its own *)
LinOptions == {<<>>, <<"rsaA">>, <<"ecA">>, <<"rsaA", "ecA">>, <<"rsaA", "ecB">>, <<"rsaA", "ecA", "ecB">>, <<"rsaA", "ecB", "ecA">>}
LinSigner(cs, lo, hi) ==
  LET c == IF cs = <<>> THEN "rsaA" ELSE cs[Len(cs)]
  IN Sgn(<<AlgForCert(c)>>, c, <<c>>, lo, hi, IF cs = <<>> THEN <<>> ELSE <<LinAt(MkLin(cs))>>)
LinChain(x) == [i \in DOMAIN x |-> LinSigner(x[i], 26 + 2 * i, IF i = Len(x) THEN MaxInt ELSE 27 + 2 * i)]
LinChains == UNION {{ApkN(<<P3(LinChain(x))>>), ApkN(<<P3(Reverse(LinChain(x)))>>)} : x \in SeqsOf(LinOptions, 2, 3)}
(* signers with any ranges, in any order *)
Spans == {s \in {28, 29, 30, 32} \X {28, 29, 31, MaxInt} : s[1] <= s[2]}
SpanKeys == <<"rsaA", "ecA", "ecB">>
SpanSigner(i, s) == S3(<<AlgForKey(SpanKeys[i])>>, SpanKeys[i], s[1], s[2])
SpanApks == {ApkN(<<P3([i \in DOMAIN x |-> SpanSigner(i, x[i])])>>) : x \in SeqsOf(Spans, 1, 3)}
(* and v3.0 signers below v3.1 ones, which do or do not say where the rotation starts *)
Spans31 == {<<32, MaxInt>>, <<33, 33>>, <<33, 34>>, <<33, MaxInt>>, <<34, 34>>, <<34, MaxInt>>, <<35, MaxInt>>}
RotApks ==
  {ApkN(<<P3(<<[S3(<<"rsa256">>, "rsaA", lo, hi) EXCEPT !.attrs = at]>>), P31([i \in DOMAIN x |-> SpanSigner(i + 1, x[i])])>>) :
     lo \in {24, 28}, hi \in {31, 32, 33, 34, MaxInt}, at \in {<<>>, <<RotMinAttr(33)>>, <<RotMinAttr(34)>>, <<RotMinAttr(35)>>}, x \in SeqsOf(Spans31, 1, 2)}
(* every short list of signatures with digests, and of signers with contradicting digests *)
SigSts == {"ok", "sig", "dig"}
SigListSigner(x) ==
  [S2([i \in DOMAIN x |-> x[i][1]], "rsaA") EXCEPT
     !.sigs = [i \in DOMAIN x |-> [Sg(x[i][1], "rsaA") EXCEPT !.o = IF x[i][2] = "sig" THEN "other" ELSE "this"]],
     !.digs = [i \in DOMAIN x |-> [Dg(x[i][1]) EXCEPT !.d = IF x[i][2] = "dig" THEN "bad" ELSE "good"]]]
SigLists == {[ApkN(<<P2(<<SigListSigner(x)>>)>>) EXCEPT !.zip = AlignZip] : x \in SeqsOf({"rsa256", "rsa512", "vrsa", "unkX"} \X SigSts, 1, IF Depth = 1 THEN 2 ELSE 3)}
DigSigner(x) == LET k == IF x[1] = "ec256" THEN "ecA" ELSE "rsaA" IN [S2(<<x[1]>>, k) EXCEPT !.digs[1].d = x[2]]
DigLists == {[ApkN(<<P2([i \in DOMAIN x |-> DigSigner(x[i])])>>) EXCEPT !.zip = AlignZip] : x \in SeqsOf({"rsa256", "rsa512", "vrsa", "ec256"} \X {"good", "bad"}, 2, 3)}
(* every combination of schemes, each absent, good or broken in one of the ways *)
V1s == {NoV1, PlainV1, [PlainV1 EXCEPT !.mf.ents[1].ds = <<D("sha1", "bad")>>]}
         \cup {[PlainV1 EXCEPT !.signers[1].sf.hasxa = TRUE, !.signers[1].sf.xa = t] : t \in {<<"2">>, <<"2", "3">>}}
Broken(s) == {[s EXCEPT !.digs[1].d = "bad"], [s EXCEPT !.sigs[1].o = "other"]}
Maybe(Mk1(_), ss) == {<<>>} \cup {<<Mk1(<<s>>)>> : s \in ss}
Mixes ==
  {Apk(Block(p2 \o p3 \o p31), v) : v \in V1s,
     p2 \in Maybe(P2, {S2(<<"rsa256">>, "rsaA")} \cup Broken(S2(<<"rsa256">>, "rsaA"))),
     p3 \in Maybe(P3, {Rsa3, [S3(<<"rsa256">>, "rsaA", 24, 32) EXCEPT !.attrs = <<RotMinAttr(33)>>]} \cup Broken(S3(<<"rsa256">>, "rsaA", 24, 32))),
     p31 \in Maybe(P31, {S3(<<"ec256">>, "ecA", 33, MaxInt)} \cup Broken(S3(<<"ec256">>, "ecA", 33, MaxInt)))}
MixRanges == {<<AnyMin, MaxInt>>, <<14, 23>>, <<14, 27>>, <<14, 32>>, <<24, 27>>, <<24, 32>>, <<27, 28>>, <<28, 32>>, <<33, 33>>}
(* entries of a signing block in any order, some of them more than once *)
PairToks == {P2(<<S2(<<"rsa256">>, "rsaA")>>), P2(<<[S2(<<"rsa256">>, "rsaA") EXCEPT !.digs[1].d = "bad"]>>), P3(<<Rsa3>>), [P2(<<>>) EXCEPT !.fr = "listTrunc"], Px("unkA", "x"), Px("pad", "")}
PairLists == {ApkB(x) : x \in SeqsOf(PairToks, 0, IF Depth = 1 THEN 3 ELSE 4)}
(* entries of frosting *)
FrostToks == {[dis |-> d, key |-> k, hash |-> h, k |-> s, o |-> "this", f |-> "ok"] : d \in {0, 1}, k \in {0, 1, 2}, h \in {"good", "bad", "short"}, s \in {"frost", "frost2"}}
FrostFew == {e \in FrostToks : e.key = 0 /\ e.hash # "short"}
FrostLists == {WithFrost(ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), MkFrost(x)) : x \in SeqsOf(FrostToks, 1, IF Depth = 1 THEN 1 ELSE 2) \cup SeqsOf(FrostFew, 2, 3)}
(* signatures of a stamp, of all levels of platforms *)
StampSgs == {[Sg(a, "rsaB") EXCEPT !.o = o] : a \in {"rsa256", "rsa512", "pss256", "pss512", "vrsa"}, o \in {"this", "other"}} \cup {Sg("unkX", "rsaB")}
StampEcSgs == {[Sg(a, "ecC") EXCEPT !.o = o] : a \in {"ec256", "ec512", "vec"}, o \in {"this", "other"}}
WithSgs(c, sgs) == WithStamp(ApkB(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>),
                     LET st == MkStamp(c, <<1, 2>>, AlgForCert(c), <<>>) IN [st EXCEPT !.schemes = [i \in DOMAIN @ |-> [@[i] EXCEPT !.sigs = sgs]]])
StampLists == {WithSgs("rsaB", x) : x \in SeqsOf(StampSgs, 1, 2)} \cup {WithSgs("ecC", x) : x \in SeqsOf(StampEcSgs, 1, IF Depth = 1 THEN 2 ELSE 3)}
(* digests declared and present *)
DsAny == {ds \in UNION {[S -> {"good", "bad"}] : S \in SUBSET {"sha1", "sha-256", "sha-384", "sha-512"}} : TRUE}
DsSeq(f) == LET al == SelectSeq(<<"sha1", "sha-256", "sha-384", "sha-512">>, LAMBDA a : a \in DOMAIN f) IN [i \in DOMAIN al |-> D(al[i], f[al[i]])]
DaLists == SeqsOf({"sha1", "sha-256", "sha-384", "sha-512"}, 0, IF Depth = 1 THEN 1 ELSE 2) \cup {<<"sha-384", "sha1">>, <<"sha-256", "sha-512">>, <<"sha-512", "sha-256">>}
DigestMixes == {V1With(DsSeq(f), da) : f \in DsAny, da \in DaLists}
(* a section without digests, of a file that needs none, anywhere among the others *)
Hollow ==
  {WithFiles([PlainV1 EXCEPT !.fmt.eol = e, !.mf.ents = InsertAt(@, i, En("META-INF/note.txt", ds)),
                             !.signers[1].sf.whole = wh, !.signers[1].sf.tool = t,
                             !.signers[1].sf.ents = IF listed THEN InsertAt(@, j, En("META-INF/note.txt", Sha1Ds)) ELSE @], NFiles) :
     e \in {"lf", "crlf", "cr"}, i \in 1..4, j \in {1, 4}, t, listed \in BOOLEAN, ds \in {<<>>, <<D("md5", "bad")>>}, wh \in {<<>>, <<D("sha1", "bad")>>}}
(* certificates of a v1 block in any order, and which of them signed *)
PkCerts == {"rsaA", "rsaB", "crit", "fakeRA", "twinR", "expR", "leafRA", "ecA", "leafEA", "interEA", "interE2"}
PkBy(c) == IF KeyTyp[KeyOf(c)] = "ec" THEN Info1("sha256", "ec", KeyOf(c), c) ELSE Info1("sha256", "rsa", KeyOf(c), c)
PkLists == {ApkV1([PlainV1 EXCEPT !.signers[1].pk = [@ EXCEPT !.certs = x, !.infos = <<PkBy(c)>>]]) :
              x \in SeqsOf(PkCerts, 1, 2) \cup SeqsOf({"leafEA", "interEA", "interE2", "ecA"}, 3, IF Depth = 1 THEN 3 ELSE 4), c \in {"rsaA", "fakeRA", "crit", "leafRA", "leafEA", "interE2"}}
AsTheyAre ==
  CASE Prop = "C11" -> Cases(ThreeV1, V({<<AnyMin, MaxInt>>, <<14, 23>>, <<24, 27>>})) \cup Cases(ChainCovers \cup Manned, V({<<14, 27>>}))
    [] Prop = "C29" -> Cases({a \in Hollow : a.v1.signers[1].sf.whole = <<>> \/ a.v1.fmt.eol = "crlf"}, V({<<18, MaxInt>>, <<14, 23>>}))
    [] Prop = "C12" -> Cases(PkLists, V({<<14, 23>>, <<24, 27>>}))
    [] Prop = "C09" -> Cases(LinChains, B({<<28, MaxInt>>}))
    [] Prop = "C08" -> Cases(SpanApks, B({<<28, MaxInt>>, <<28, 31>>, <<30, 31>>, <<24, 40>>}))
    [] Prop = "C10" -> Cases(RotApks, B({<<28, MaxInt>>, <<33, 33>>, <<34, 40>>, <<28, 32>>, <<24, 33>>}))
    [] Prop = "C02" -> Cases(SigLists \cup DigLists, B({<<24, 27>>}))
    [] Prop \in {"C03", "C04", "C05", "C07"} -> Cases(Mixes, V(MixRanges))
    [] Prop = "C13" -> Cases(DigestMixes, V({<<1, 8>>, <<9, 17>>, <<14, 23>>, <<18, 23>>}))
    [] Prop = "C17" -> Cases(PairLists, V({<<14, 27>>, <<28, MaxInt>>}))
    [] Prop = "C19" -> Cases(StampLists, B({<<1, 5>>, <<1, 23>>, <<11, 22>>, <<23, 23>>, <<24, 30>>}))
    [] Prop = "C20" -> Cases(FrostLists, B({<<24, 27>>})) \cup Cases({Huge(WithFrost(ApkN(<<P2(<<S2(<<"rsa256">>, "rsaA")>>)>>), Fr0), n) : n \in {"n:8191:h", "n:8192:h", "n:8193:h", "n:65536:h", "n:1048577:h", "n:16785408:h", "n:33554433:h"}}, B({<<24, 27>>}))
    [] OTHER -> {}

----------------------------------------------------------------------------
Bases ==
  CASE Prop = "C01" -> BasesC01 [] Prop = "C02" -> BasesC02 [] Prop = "C03" -> BasesC03 [] Prop = "C04" -> BasesC04 [] Prop = "C05" -> BasesC05
    [] Prop = "C06" -> BasesC06 [] Prop = "C07" -> BasesC07 [] Prop = "C08" -> BasesC08 [] Prop = "C09" -> BasesC09
    [] Prop = "C10" -> BasesC10 [] Prop = "C11" -> BasesC11 [] Prop = "C12" -> BasesC12 [] Prop = "C13" -> BasesC13
    [] Prop = "C14" -> BasesC14 [] Prop = "C15" -> BasesC15 [] Prop = "C16" -> BasesC16 [] Prop = "C17" -> BasesC17 \cup V1Located
    [] Prop = "C18" -> BasesC18 [] Prop = "C19" -> BasesC19 [] Prop = "C20" -> BasesC20 [] Prop = "C25" -> BasesC25 [] Prop = "C29" -> BasesC29
    [] Prop = "all" -> BasesC01 \cup BasesC02 \cup BasesC03 \cup BasesC04 \cup BasesC05 \cup BasesC06 \cup BasesC07 \cup BasesC08 \cup BasesC09 \cup BasesC10 \cup BasesC11 \cup BasesC12
                       \cup BasesC13 \cup BasesC14 \cup BasesC15 \cup BasesC16 \cup BasesC17 \cup V1Located \cup BasesC18 \cup BasesC19 \cup BasesC20 \cup BasesC25 \cup BasesC29

EditsOf(a) ==
  CASE Prop = "C01" -> EditsC01(a) [] Prop = "C02" -> EditsC02(a) [] Prop = "C03" -> EditsC03(a) [] Prop = "C04" -> EditsC04(a) [] Prop = "C05" -> EditsC05(a)
    [] Prop = "C06" -> EditsC06(a) [] Prop = "C07" -> EditsC07(a) [] Prop = "C08" -> EditsC08(a) [] Prop = "C09" -> EditsC09(a)
    [] Prop = "C10" -> EditsC10(a) [] Prop = "C11" -> EditsC11(a) [] Prop = "C12" -> EditsC12(a) [] Prop = "C13" -> EditsC13(a)
    [] Prop = "C14" -> EditsC14(a) [] Prop = "C15" -> EditsC15(a) [] Prop = "C16" -> EditsC16(a)
    [] Prop = "C17" -> IF a.v1.st = "ok" THEN EditsV1Located(a) ELSE EditsC17(a)
    [] Prop = "C18" -> EditsC18(a) [] Prop = "C19" -> EditsC19(a) [] Prop = "C20" -> EditsC20(a) [] Prop = "C25" -> EditsC25(a) [] Prop = "C29" -> EditsC29(a)

(* Changes that must not matter to the call at hand (call, inp.min, inp.max) *)
OnDigs(a, E(_)) == OnSigners(a, LAMBDA s : {[s EXCEPT !.digs = x] : x \in E(s.digs)})
Garbage(p) == {[p EXCEPT !.fr = "listTrunc"], [p EXCEPT !.signers = <<>>], [p EXCEPT !.signers = [i \in DOMAIN @ |-> [@[i] EXCEPT !.certs = <<"junk">>]]]}
NewerIds(a) == {i \in DOMAIN a.sb.pairs : IsSigPair(a.sb.pairs[i]) /\ ~SchemeIn(a.sb.pairs[i].id)}
Neutral(a) ==
  CASE Prop = "C18" -> UnknownPairEdits(a) \cup OnSigners(a, LAMBDA s : {[s EXCEPT !.attrs = x] : x \in InsAny(s.attrs, TolerableAttrs)})
                       \cup OnSigners(a, LAMBDA s : {NewAlg(s, i, x, "bad", g) : i \in 1..(Len(s.sigs)+1), x \in {"unkX", "unkY", "unkZ"}, g \in BOOLEAN})
                       \cup OnSigners(a, LAMBDA s : IF \E i \in DOMAIN s.sigs : s.sigs[i].a \in {"rsa512", "ec512", "pss512"}
                                                    THEN {NewAlg(s, i, x, "bad", FALSE) : i \in 1..(Len(s.sigs)+1), x \in {"rsa256", "ec256", "vrsa"}} ELSE {})
    [] Prop = "C03" -> UNION {{[a EXCEPT !.sb.pairs[i] = p] : p \in Garbage(a.sb.pairs[i])} \cup {[a EXCEPT !.sb.pairs = Drop(@, i)]} : i \in NewerIds(a)}
    [] Prop = "C05" -> IF w.sb.res = "acc" \/ max < LevelN THEN OnSf(a, XaEdits) ELSE {}
    [] Prop = "C06" -> IF max < LevelP THEN OnSigners(a, LAMBDA s : {[s EXCEPT !.attrs = x] : x \in InsAny(s.attrs, StripAttrs \cup RotAttrs)})
                       ELSE OnSigners(a, LAMBDA s : {[s EXCEPT !.attrs = x] : x \in InsAny(s.attrs, (IF s.omin = 0 THEN RotAttrs ELSE {}) \cup (IF s.omin # 0 THEN StripAttrs ELSE {}))})
    [] Prop = "C11" -> {[a EXCEPT !.files = Append(@, Fl(n, "x"))] : n \in ({"META-INF/note.txt", "META-INF/services/x", "META-INF/sub/y"} \cup NearMisses) \ {a.files[i].n : i \in DOMAIN a.files}}
    [] Prop = "C13" -> {[a EXCEPT !.v1.mf.ents[i].ds = Append(@, D("md5", v))] : i \in DOMAIN a.v1.mf.ents, v \in Vals}
    [] Prop = "C19" -> UNION {{[a EXCEPT !.sb.pairs[i].stamp = x] : x \in StampEdits(a.sb.pairs[i].stamp)} : i \in {j \in DOMAIN a.sb.pairs : a.sb.pairs[j].id = "stamp"}}
    [] Prop = "C20" -> OnFrost(a)
    [] Prop = "C25" -> IF call = "extract" THEN Stale(a) ELSE {}
    [] Prop = "C29" -> FmtEdits(a)
    [] OTHER -> {}

Some(S) == IF Cardinality(S) <= Sample THEN S ELSE RandomSubset(Sample, S)

Init == inp \in Bases \cup SweepCases \cup {[c EXCEPT !.d = Depth + 1] : c \in AsTheyAre} /\ call = "none" /\ pc = "edit" /\ w = W0

Edit ==
  /\ pc = "edit" /\ inp.d < Depth /\ inp.ref = <<>>
  /\ \E x \in (IF inp.d = 0 THEN EditsOf(inp.apk) ELSE Some(EditsOf(inp.apk))) : inp' = [inp EXCEPT !.apk = x, !.d = @ + 1]
  /\ UNCHANGED <<call, pc, w>>

Begin == inp.ref = <<>> /\ \E r \in inp.rs : Start(r[1], r[2], r[3])

(* the same call once more, on the APK changed in a way that must not matter to it *)
Again ==
  /\ Done /\ inp.d = 0 /\ inp.ref = <<>>
  /\ \E x \in Neutral(inp.apk) \ {inp.apk} : inp' = [inp EXCEPT !.apk = x, !.ref = <<w.out>>]
  /\ pc' = "edit" /\ UNCHANGED <<call, w>>
BeginAgain == inp.ref # <<>> /\ Start(call, inp.min, inp.max)

Next == Edit \/ Begin \/ Again \/ BeginAgain \/ VerifierNext
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Emit == Done => PrintT("@@" \o ToJson([apk |-> inp.apk, call |-> call, min |-> inp.min, max |-> inp.max, keep |-> Keep, out |-> w.out]))
=============================================================================
