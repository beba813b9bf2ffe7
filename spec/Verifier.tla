------------------------------ MODULE Verifier ------------------------------
(***************************************************************************)
(* The verifier as a state machine: one call of the public API             *)
(*   verify  - VerifyWithSdkVersion                                        *)
(*   block   - signingblock.VerifySigningBlock                             *)
(*   extract - ExtractCerts                                                *)
(* on one abstract APK and SDK range, one action per step of the           *)
(* implementation (open manifest, range, locate and split the signing      *)
(* block, choose the scheme, one action per signer, content digests,       *)
(* joint judgement, fallback, stamp, decision, v1 load, one action per v1  *)
(* signature, files, verdict).                                             *)
(***************************************************************************)
EXTENDS Stamp, SchemeV1

VARIABLES
  inp,    \* [apk, min, max, ...]: what the call is given
  call,   \* none | verify | block | extract
  pc,     \* next step
  w       \* what the call knows so far

vars == <<inp, call, pc, w>>

NoDigs == [c256 |-> "-", c512 |-> "-", v256 |-> "-"]

NoOut == [res |-> "none", scheme |-> 0, certs |-> <<>>, lin |-> NoLin, extra |-> {},
          v3certs |-> <<>>, v3lin |-> NoLin, stamp |-> NoStamp, frost |-> "nil"]

W0 == [ min |-> 0, merr |-> FALSE, sbx |-> 1, tgt |-> 0,   \* from the manifest
        loc |-> FALSE,                                     \* signing block found and split
        extra |-> {}, demoted |-> FALSE,
        scheme |-> 1, phase |-> "none", i |-> 0,           \* signer loop: phase v31 | v3 | v3b (base of v3.1) | v2
        err |-> FALSE, nf |-> FALSE,                       \* errors so far; not-found kind
        acc |-> <<>>, acc3 |-> <<>>,                       \* signer results: of the scheme, of the v3.0 base
        digs |-> NoDigs, digs31 |-> NoDigs,
        lin |-> <<>>, lin3 |-> <<>>,
        sb |-> NoOut,                                      \* signing block result
        v1i |-> 0, v1chains |-> <<>>, v1valid |-> <<>>, v1err |-> FALSE, v1load |-> FALSE,
        out |-> NoOut ]

apk == inp.apk
max == IF call = "extract" THEN MaxInt ELSE inp.max
Lo == w.min

Goto(p, upd) == pc' = p /\ w' = upd /\ UNCHANGED <<inp, call>>

----------------------------------------------------------------------------
(* The signing block *)
UnknownIds == {"unkA", "unkB", "meituan", "depmeta", "stampv1"}
(* of several entries of one id only the first one counts *)
PairIdx(id) == FirstIdx(apk.sb.pairs, LAMBDA p : p.id = id)
HasPair(id) == PairIdx(id) # 0
PairOf(id) == apk.sb.pairs[PairIdx(id)]
SchemeIn(id) == CASE id = "v2" -> max >= LevelN [] id = "v3" -> max >= LevelP [] id = "v31" -> max >= LevelT
Usable(id) == HasPair(id) /\ SchemeIn(id) /\ ~(id = "v3" /\ w.demoted)

EocdOK == apk.zip.eocd = "ok" /\ apk.zip.comment # "fake"
BlockOK == apk.sb.st = "ok" /\ apk.sb.dmg = "none"
Located == EocdOK /\ BlockOK

ExtraIds ==
  {id \in UnknownIds : HasPair(id)}
  \cup {id \in {"v2", "v3", "v31"} : HasPair(id) /\ ~SchemeIn(id)}
  \cup (IF HasPair("v3") /\ max >= LevelT THEN {"v3"} ELSE {})

SignersOf(id) == IF PairOf(id).fr = "ok" THEN PairOf(id).signers ELSE <<>>
ListBroken(id) == PairOf(id).fr # "ok"

DigestsMatch(digs) ==
  \A t \in DOMAIN digs : digs[t] # "-" => (digs[t] = "good" /\ (t = "v256" => apk.zip.align))
NoDigests(digs) == \A t \in DOMAIN digs : digs[t] = "-"

----------------------------------------------------------------------------
(* Actions *)
AmInt(v, dflt) == IF v = -1 THEN dflt ELSE v
AmBad == apk.am.st \in {"bad", "text"} \/ (apk.am.st = "ok" /\ (apk.am.min = -2 \/ apk.am.tgt = -2 \/ apk.am.sbx = -2))

Start(c, lo, hi) ==
  /\ pc = "edit" /\ call' = c /\ inp' = [inp EXCEPT !.min = lo, !.max = hi]
  /\ pc' = CASE c = "verify" -> "manifest" [] OTHER -> "locate"
  /\ w' = [W0 EXCEPT !.min = IF c = "extract" THEN AnyMin ELSE lo]

ReadManifest ==
  /\ pc = "manifest"
  /\ IF inp.min = AnyMin \/ max >= LevelO
     THEN IF AmBad THEN Goto("range", [w EXCEPT !.merr = TRUE, !.sbx = 0])
          ELSE IF apk.am.st = "absent" THEN Goto("range", [w EXCEPT !.min = IF inp.min = AnyMin THEN 1 ELSE inp.min])
          ELSE Goto("range", [w EXCEPT !.min = IF inp.min = AnyMin THEN AmInt(apk.am.min, 1) ELSE inp.min,
                                       !.tgt = AmInt(apk.am.tgt, AmInt(apk.am.min, 0)), !.sbx = AmInt(apk.am.sbx, 1)])
     ELSE Goto("range", [w EXCEPT !.sbx = 0])

CheckRange ==
  /\ pc = "range"
  /\ IF Lo > max THEN Goto("done", [w EXCEPT !.out.res = "rej"]) ELSE Goto("locate", w)

Locate ==
  /\ pc = "locate"
  /\ IF ~Located THEN Goto("blockres", [w EXCEPT !.err = TRUE, !.nf = TRUE])
     ELSE LET f == IF HasPair("frost") THEN FrostResult(PairOf("frost").frost) ELSE "nil"
          IN Goto("pick", [w EXCEPT !.loc = TRUE, !.extra = ExtraIds, !.sb.frost = f])

Pick ==
  /\ pc = "pick"
  /\ IF call # "extract" /\ max < LevelN THEN Goto("stamp", [w EXCEPT !.scheme = 1])
     ELSE IF Usable("v31") THEN Goto("signer", [w EXCEPT !.scheme = 31, !.phase = "v31", !.i = 1, !.err = ListBroken("v31")])
     ELSE IF Usable("v3") THEN Goto("signer", [w EXCEPT !.scheme = 3, !.phase = "v3", !.i = 1, !.err = ListBroken("v3")])
     ELSE IF Usable("v2") THEN Goto("signer", [w EXCEPT !.scheme = 2, !.phase = "v2", !.i = 1, !.err = ListBroken("v2")])
     ELSE Goto("stamp", [w EXCEPT !.scheme = 1, !.err = TRUE, !.nf = TRUE])

PhaseId(ph) == CASE ph = "v31" -> "v31" [] ph \in {"v3", "v3b"} -> "v3" [] ph = "v2" -> "v2"
RotMin == LET ms == {SignersOf("v31")[k].omin : k \in DOMAIN SignersOf("v31")}
              m == CHOOSE x \in ms : \A y \in ms : x <= y
          IN IF ms = {} \/ m = MaxInt THEN 0 ELSE m

AddDigest(d, r) == IF r.ok THEN [d EXCEPT ![r.typ] = r.val] ELSE d
Conflict(d, r) == r.ok /\ d[r.typ] # "-" /\ d[r.typ] # r.val

ParseSigner ==
  /\ pc = "signer" /\ w.i <= Len(SignersOf(PhaseId(w.phase)))
  /\ LET s == SignersOf(PhaseId(w.phase))[w.i]
         r == SignerStep(s, [v3 |-> w.phase # "v2", max |-> max, extra |-> w.extra,
                             rotMin |-> IF w.phase = "v3b" THEN RotMin ELSE 0])
         d == IF w.phase = "v31" THEN w.digs31 ELSE w.digs
         bad == ~r.ok \/ Conflict(d, r)
         n == [w EXCEPT !.i = w.i + 1, !.err = w.err \/ (bad /\ (w.phase # "v3b" \/ call # "extract"))]
     IN Goto("signer",
             IF w.phase = "v31" THEN [n EXCEPT !.acc = Append(@, r), !.digs31 = AddDigest(@, r)]
             ELSE IF w.phase = "v3b" THEN [n EXCEPT !.acc3 = Append(@, r), !.digs = AddDigest(@, r)]
             ELSE [n EXCEPT !.acc = Append(@, r), !.digs = AddDigest(@, r)])

SignersDone ==
  /\ pc = "signer" /\ w.i > Len(SignersOf(PhaseId(w.phase)))
  /\ IF w.phase = "v31"
     THEN IF "v3" \in w.extra
          THEN Goto("signer", [w EXCEPT !.phase = "v3b", !.i = 1, !.err = w.err \/ (call # "extract" /\ ListBroken("v3"))])
          ELSE Goto("integrity", [w EXCEPT !.err = TRUE])
     ELSE IF w.phase = "v2" /\ Len(w.acc) > 10 THEN Goto("integrity", [w EXCEPT !.err = TRUE])
     ELSE Goto("integrity", w)

CertsOf(acc) == [k \in DOMAIN acc |-> acc[k].certs]

Integrity ==
  /\ pc = "integrity"
  /\ IF call = "extract"
     THEN Goto("done", [w EXCEPT !.out.res = IF w.err THEN "rej" ELSE "acc", !.out.certs = IF w.err THEN <<>> ELSE CertsOf(w.acc)])
     ELSE Goto("judge", [w EXCEPT !.err = w.err \/ w.acc = <<>> \/ NoDigests(w.digs) \/ ~DigestsMatch(w.digs)
                                            \/ ~DigestsMatch(w.digs31)])

Judge ==
  /\ pc = "judge"
  /\ IF w.err \/ w.phase = "v2" THEN Goto("fallback", w)
     ELSE LET lo == Max2(Lo, LevelP) IN
       IF w.phase = "v3"
       THEN LET j == JudgeSigners(w.acc, lo, max)
            IN Goto("fallback", [w EXCEPT !.err = ~j.ok, !.lin = j.lin])
       ELSE LET j == JudgeSigners(w.acc, max, max)
                b == JudgeSigners(w.acc3, lo, IF RotMin # 0 THEN RotMin - 1 ELSE max)
            IN Goto("fallback", [w EXCEPT !.err = ~j.ok \/ ~b.ok, !.lin = j.lin, !.lin3 = b.lin])

Fallback ==
  /\ pc = "fallback"
  /\ IF w.err /\ w.scheme >= 3 /\ Lo < LevelP /\ Usable("v2") /\ ~w.demoted
     THEN Goto("pick", [W0 EXCEPT !.min = w.min, !.merr = w.merr, !.sbx = w.sbx, !.tgt = w.tgt, !.loc = w.loc,
                                  !.extra = w.extra \cup (IF HasPair("v3") THEN {"v3"} ELSE {}), !.demoted = TRUE, !.sb.frost = w.sb.frost])
     ELSE Goto("stamp", w)

EvalStamp ==
  /\ pc = "stamp"
  /\ IF call = "extract" THEN Goto("v1load", w)
     ELSE LET st == StampResult(HasPair("stamp"), IF HasPair("stamp") THEN PairOf("stamp").stamp ELSE <<>>,
                                apk.stf, w.scheme, Lo, max)
          IN Goto("blockres", [w EXCEPT !.sb.stamp = st])

BlockResult ==
  /\ pc = "blockres"
  /\ LET r == IF ~w.err THEN "acc" ELSE IF w.nf THEN "notfound" ELSE "rej"
         f == [w.sb EXCEPT !.res = r,
                 !.scheme = IF w.err THEN 0 ELSE w.scheme,
                 !.certs = IF w.err THEN <<>> ELSE CertsOf(w.acc),
                 !.lin = IF w.err THEN NoLin ELSE LinOut(w.lin),
                 !.extra = w.extra,
                 !.v3certs = IF w.err THEN <<>> ELSE CertsOf(w.acc3),
                 !.v3lin = IF w.err THEN NoLin ELSE LinOut(w.lin3)]
     IN IF call = "block" THEN Goto("done", [w EXCEPT !.sb = f, !.out = f])
        ELSE IF call = "extract" THEN Goto("v1load", w)
        ELSE Goto("decide", [w EXCEPT !.sb = f])

Decide ==
  /\ pc = "decide"
  /\ IF w.sb.res = "rej" THEN Goto("done", [w EXCEPT !.out.res = "rej"])
     ELSE IF w.sb.res = "acc" /\ Lo >= LevelN THEN Goto("done", [w EXCEPT !.out = w.sb])
     ELSE Goto("v1load", w)

V1Load ==
  /\ pc = "v1load"
  /\ IF LoadOK(apk.v1) THEN Goto("v1sig", [w EXCEPT !.v1i = 1]) ELSE Goto("combine", [w EXCEPT !.v1err = TRUE])

V1Sig ==
  /\ pc = "v1sig" /\ w.v1i <= Len(Signatures(apk.v1))
  /\ LET k == Signatures(apk.v1)[w.v1i]
         b == BlockCheck(apk.v1, k, Lo, max)
         sf == SfOf(apk.v1, k)
         n == [w EXCEPT !.v1i = w.v1i + 1]
     IN IF b.st = "err" THEN Goto("v1sig", [n EXCEPT !.v1err = TRUE])
        ELSE IF call = "extract" THEN Goto("v1sig", [n EXCEPT !.v1chains = Append(@, b.chain)])
        ELSE LET c == SfCheck(apk.v1, sf, Lo, max)
                 down == w.sb.res # "acc" /\ max >= LevelN /\ DeclaresNewer(sf, max)
             IN Goto("v1sig", [n EXCEPT !.v1chains = Append(@, b.chain),
                                        !.v1err = w.v1err \/ down \/ c = "reject",
                                        !.v1valid = IF c = "valid" THEN Append(@, [i |-> k, chain |-> b.chain]) ELSE @])

V1Main ==
  /\ pc = "v1sig" /\ w.v1i > Len(Signatures(apk.v1))
  /\ IF call = "extract" THEN Goto("combine", w)
     ELSE LET ok == ~w.v1err /\ w.v1valid # <<>> /\ Len(w.v1chains) <= 10 /\ MainCheck(apk, w.v1valid, Lo, max)
          IN Goto("combine", [w EXCEPT !.v1err = ~ok, !.v1chains = IF ok THEN ReportedChains(apk, w.v1valid) ELSE <<>>])

BlockScheme == IF w.sb.res = "acc" THEN w.sb.scheme ELSE 1

SandboxRefuses ==
  \/ max >= LevelO /\ w.sbx > 1 /\ BlockScheme < 2
  \/ w.tgt >= LevelR /\ max >= w.tgt /\ BlockScheme < 2

DexMagic == apk.zip.prefix \in {"dex", "dex2"}

Combine ==
  /\ pc = "combine"
  /\ IF call = "extract" THEN Goto("done", [w EXCEPT !.out.res = IF w.v1err THEN "rej" ELSE "acc", !.out.certs = IF w.v1err THEN <<>> ELSE w.v1chains])
     ELSE IF SandboxRefuses \/ w.v1err \/ (BlockScheme # 1 /\ w.merr) THEN Goto("done", [w EXCEPT !.out.res = "rej"])
     ELSE LET certs == IF w.sb.res = "acc" /\ w.sb.certs # <<>> THEN w.sb.certs ELSE w.v1chains
          IN Goto("done", [w EXCEPT !.out = [w.sb EXCEPT !.res = IF DexMagic THEN "dex" ELSE "acc",
                                               !.scheme = BlockScheme, !.certs = certs]])

VerifierNext ==
  \/ ReadManifest \/ CheckRange \/ Locate \/ Pick \/ ParseSigner \/ SignersDone \/ Integrity \/ Judge \/ Fallback
  \/ EvalStamp \/ BlockResult \/ Decide \/ V1Load \/ V1Sig \/ V1Main \/ Combine

Done == pc = "done"

TypeOK ==
  /\ call \in {"none", "verify", "block", "extract"}
  /\ pc \in {"edit", "manifest", "range", "locate", "pick", "signer", "integrity", "judge", "fallback", "stamp", "blockres",
             "decide", "v1load", "v1sig", "combine", "done"}
  /\ w.out.res \in {"none", "acc", "rej", "dex", "notfound"}
  /\ (Done => w.out.res # "none")
=============================================================================
