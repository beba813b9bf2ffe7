-------------------------------- MODULE Stamp -------------------------------
(***************************************************************************)
(* Source stamp and Play frosting: the two optional statements a signing   *)
(* block may carry next to the signatures.                                 *)
(***************************************************************************)
EXTENDS Signer

StampOut(st, cert, time, lin) == [st |-> st, cert |-> cert, time |-> time, lin |-> lin]
NoStamp == StampOut("nil", "none", 0, NoNodes)

(* --- signatures of a stamp --- *)
StampSigsParse(sigs) == \A i \in DOMAIN sigs :
  /\ sigs[i].f # "trunc"
  /\ Supported(sigs[i].a) => sigs[i].f \notin {"short", "badlen"}

SupportedSigs(sigs) == SelectSeq(sigs, LAMBDA s : Supported(s.a))
Jca(s) == AlgTab[s.a].jca

(* the strongest (first of equals) signature for every platform level at which an algorithm appeared *)
BestAt(us, lvl) ==
  LET ls == SelectSeq(us, LAMBDA s : Jca(s) = lvl)
  IN FoldLeft(LAMBDA acc, s : IF Rank(s.a) > Rank(acc.a) THEN s ELSE acc, ls[1], ls)

StampSigsOK(sigs, key, min, max) ==
  LET us == SelectSeq(SupportedSigs(sigs), LAMBDA s : Jca(s) <= max)
      lvls == {Jca(us[i]) : i \in DOMAIN us}
  IN /\ StampSigsParse(sigs)
     /\ us # <<>>
     /\ \E l \in lvls : l <= min
     /\ \A l \in lvls : SigVerifies(BestAt(us, l), key, BestAt(us, l).a)

StampWarnSigs(sigs) == \E i \in DOMAIN sigs : ~Supported(sigs[i].a)

(* --- attributes: a left to right scan --- *)
StampAttrStep(cert, acc, a) ==
  IF acc.err \/ acc.stop THEN acc
  ELSE IF a.t \in {"short", "trunc"} THEN [acc EXCEPT !.err = TRUE]
  ELSE IF a.t = "slin" THEN
    IF a.s \/ a.ver # 1 \/ a.nodes = <<>> \/ ~LineageOK(a.nodes) THEN [acc EXCEPT !.err = TRUE]
    ELSE IF ~EndsAt(a.nodes, cert) THEN [acc EXCEPT !.err = TRUE]
    ELSE [acc EXCEPT !.lin = a.nodes]
  ELSE IF a.t = "time" THEN
    IF a.s THEN [acc EXCEPT !.err = TRUE, !.stop = TRUE]
    ELSE IF a.v <= 0 THEN [acc EXCEPT !.bad = TRUE]
    ELSE [acc EXCEPT !.time = a.v]
  ELSE [acc EXCEPT !.warn = TRUE]

StampAttrs(attrs, cert) ==
  FoldLeft(LAMBDA acc, a : StampAttrStep(cert, acc, a),
           [err |-> FALSE, bad |-> FALSE, stop |-> FALSE, warn |-> FALSE, time |-> 0, lin |-> <<>>], attrs)

(* stf: content of the stamp file; scheme: what verified the APK; min/max: the range *)
StampResult(has, s, stf, scheme, min, max) ==
  IF ~has THEN (IF stf = "absent" THEN NoStamp ELSE StampOut("err", "none", 0, NoNodes))
  ELSE IF s.fr \in {"topTrunc", "certTrunc"} \/ ~Parses(s.cert) THEN StampOut("err", "none", 0, NoNodes)
  ELSE IF stf = "absent" THEN StampOut("warn", s.cert, 0, NoNodes)
  ELSE IF stf = "big" THEN StampOut("err", s.cert, 0, NoNodes)
  ELSE IF stf # s.cert THEN StampOut("mismatch", s.cert, 0, NoNodes)
  ELSE
  LET need == IF scheme = 31 THEN 3 ELSE scheme
      i == LastIdx(s.schemes, LAMBDA x : x.id = need)
      err == StampOut("err", s.cert, 0, NoNodes)
      key == KeyOf(s.cert)
      at == StampAttrs(s.attrs, s.cert)
      warn == StampWarnSigs(s.schemes[i].sigs) \/ (s.hasattrs /\ (StampWarnSigs(s.asigs) \/ at.warn))
  IN IF s.fr = "schemesTrunc" \/ i = 0 THEN err
     ELSE IF ~StampSigsOK(s.schemes[i].sigs, key, min, max) THEN err
     ELSE IF s.hasattrs /\ (s.fr \in {"attrTrunc", "asigTrunc"} \/ ~StampSigsOK(s.asigs, key, min, max) \/ s.fr = "attrListTrunc") THEN err
     ELSE IF ~s.hasattrs /\ s.fr \in {"rest1", "rest4", "rest8"} THEN err   (* whatever is left counts as attributes *)
     ELSE IF s.hasattrs /\ (at.err \/ at.bad) THEN err
     ELSE StampOut(IF warn THEN "warn" ELSE "ok", s.cert,
                   IF s.hasattrs THEN at.time ELSE 0,
                   IF s.hasattrs THEN NodesOut(at.lin) ELSE NoNodes)

----------------------------------------------------------------------------
(* The keys trusted for frosting: the real ones, or the harness's test keys put in their place *)
CONSTANT FrostKeyCount
FrostKeys == CASE FrostKeyCount = 0 -> <<"google">> [] FrostKeyCount = 1 -> <<"frost">> [] OTHER -> <<"frost", "frost2">>

(* Frosting: sig (forged), digest (other APK), err (malformed), ok, nil *)
FrostResult(f) ==
  LET es == f.entries
      i == FirstIdx(es, LAMBDA e : e.dis = 0)
      present == {j \in DOMAIN es : es[j].f # "missing"}
      (* the i-th signature of the array *)
      j == IF Cardinality(present) < i THEN 0
           ELSE CHOOSE x \in present : Cardinality({y \in present : y <= x}) = i
  (* longvar: sizes with superfluous bytes; gap, tail: bytes nobody looks at after the metadata and the signatures *)
  IN IF f.fr \notin {"ok", "longvar", "gap", "tail", "metasmall", "sigssmall"} \/ i = 0 THEN "err"
     ELSE IF f.fr = "metasmall" /\ i = Len(es) THEN "err"
     ELSE IF es[i].key >= Len(FrostKeys) \/ es[i].hash \in {"short", "long"} THEN "err"
     ELSE IF j = 0 THEN "err"
     ELSE IF f.fr = "sigssmall" /\ \A y \in present : y <= j THEN "err"
     ELSE IF es[j].f = "trail" THEN "err"
     ELSE IF ~(es[j].f = "ok" /\ es[j].k = FrostKeys[es[i].key + 1] /\ ((es[j].o = "this" /\ j = i) \/ (es[j].o = "all" /\ i = Len(es)))) THEN "sig"
     ELSE IF es[i].hash = "bad" THEN "digest" ELSE "ok"
=============================================================================
