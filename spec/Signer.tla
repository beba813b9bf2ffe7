------------------------------- MODULE Signer -------------------------------
(***************************************************************************)
(* One signer of a v2 / v3 / v3.1 signature scheme block: the steps the    *)
(* verifier takes over it, in order.  A signer result is                   *)
(*   [ok, certs, typ, val, lin, min, max]                                  *)
(* where typ/val is the content digest this signer contributes and lin the *)
(* raw nodes of its proof of rotation (<<>> if none).                      *)
(***************************************************************************)
EXTENDS Base

(* --- signatures: pick the strongest supported one --- *)
SigScanStep(acc, s) ==
  IF ~acc.ok THEN acc
  ELSE IF s.f \in {"short", "trunc"} THEN [acc EXCEPT !.ok = FALSE]
  ELSE IF ~Supported(s.a) THEN acc
  ELSE IF acc.best # <<>> /\ Rank(s.a) <= Rank(acc.best[1].a) THEN acc
  ELSE IF s.f = "badlen" THEN [acc EXCEPT !.ok = FALSE]
  ELSE [acc EXCEPT !.best = <<s>>]

SigScan(sigs) ==
  LET r == FoldLeft(SigScanStep, [ok |-> TRUE, best |-> <<>>], sigs)
  IN [r EXCEPT !.ok = r.ok /\ r.best # <<>>]

(* --- digests --- *)
DigScanStep(algo, acc, d) ==
  IF ~acc.ok THEN acc
  ELSE IF d.f \in {"short", "trunc"} THEN [acc EXCEPT !.ok = FALSE]
  ELSE IF d.a # algo THEN acc
  ELSE IF d.f = "badlen" THEN [acc EXCEPT !.ok = FALSE]
  ELSE [acc EXCEPT !.val = d.d]

DigScan(digs, algo) == FoldLeft(LAMBDA acc, d : DigScanStep(algo, acc, d), [ok |-> TRUE, val |-> "none"], digs)

AlgList(s) == [i \in DOMAIN s |-> s[i].a]

(* --- attributes --- *)
SchemeBlock(v) == CASE v = 2 -> "v2" [] v = 3 -> "v3" [] v = 31 -> "v31" [] OTHER -> "none"

AttrOKv2(a, max, extra) ==
  /\ a.t \notin {"short", "trunc"}
  /\ (a.t = "strip" /\ max >= LevelP) => (~a.s /\ SchemeBlock(a.v) # "none" /\ SchemeBlock(a.v) \in extra)

(* proof of rotation *)
LineageOK(nodes) ==
  /\ \A i \in DOMAIN nodes :
       /\ nodes[i].f \in {"ok", "tail", "sdtail"}
       /\ Parses(nodes[i].c)
       /\ i > 1 => /\ Genuine(nodes[i].k, nodes[i].m, nodes[i].o, "ok", KeyOf(nodes[i-1].c), nodes[i-1].na)
                   /\ nodes[i].pa = nodes[i-1].na
  /\ \A i, j \in DOMAIN nodes : nodes[i].c = nodes[j].c => i = j

EndsAt(nodes, c) == nodes # <<>> /\ nodes[Len(nodes)].c = c

AttrOKv3(a, max, rotMin, main) ==
  /\ a.t \notin {"short", "trunc"}
  /\ (a.t = "rotmin" /\ max >= LevelT) => (~a.s /\ rotMin # 0 /\ a.v = rotMin)
  /\ (a.t = "lin" /\ a.ver # -1) => (~a.s /\ a.ver = 1 /\ LineageOK(a.nodes) /\ (a.nodes # <<>> => EndsAt(a.nodes, main)))

LinOf(attrs) ==
  LET i == LastIdx(attrs, LAMBDA a : a.t = "lin" /\ a.ver # -1 /\ a.nodes # <<>>)
  IN IF i = 0 THEN <<>> ELSE attrs[i].nodes

(* --- one signer --- *)
SignerFail == [ok |-> FALSE, certs |-> <<>>, typ |-> "none", val |-> "none", lin |-> <<>>, min |-> 0, max |-> 0]

(* ctx: [v3, max, extra, rotMin] *)
SignerStep(s, ctx) ==
  LET sc == SigScan(s.sigs)
      best == sc.best[1].a
      ds == DigScan(s.digs, best)
      ok ==
        /\ s.fr = "ok"
        /\ ctx.v3 => (s.omin >= 1 /\ s.omin <= s.omax)
        /\ sc.ok
        /\ s.pub \in DOMAIN KeyTyp /\ SigVerifies(sc.best[1], s.pub, best)
        /\ ctx.v3 => (s.omin = s.smin /\ s.omax = s.smax)
        /\ s.certs # <<>> /\ \A i \in DOMAIN s.certs : Parses(s.certs[i])
        /\ KeyOf(s.certs[1]) = s.pub
        /\ ds.ok /\ AlgList(s.digs) = AlgList(s.sigs)
        /\ \A i \in DOMAIN s.attrs :
             IF ctx.v3 THEN AttrOKv3(s.attrs[i], ctx.max, ctx.rotMin, s.certs[1])
                       ELSE AttrOKv2(s.attrs[i], ctx.max, ctx.extra)
  IN IF ok THEN [ok |-> TRUE, certs |-> s.certs, typ |-> DigOf(best), val |-> ds.val,
                 lin |-> IF ctx.v3 THEN LinOf(s.attrs) ELSE <<>>, min |-> s.omin, max |-> s.omax]
           ELSE SignerFail

----------------------------------------------------------------------------
(* Judging the v3 signers together *)
SortByMin(ss) == SortSeq(ss, LAMBDA a, b : a.min < b.min)

Contiguous(ss) == \A i \in 2..Len(ss) : ss[i-1].max < MaxInt /\ ss[i].min = ss[i-1].max + 1

SigToken(n) ==
  IF n.k = "" THEN <<"first">>
  ELSE IF n.o = "other" THEN <<n.k, "other", n.m, FALSE>>
  ELSE <<n.k, "this", IF Supported(n.m) THEN AlgTab[n.m].cls ELSE n.m, n.f = "sdtail">>
SameNode(a, b) == NodeOut(a) = NodeOut(b) /\ SigToken(a) = SigToken(b)

(* lineages, in SDK order: sizes never shrink, all prefixes of the (first) longest *)
Lins(ss) == LET t == SelectSeq(ss, LAMBDA x : x.lin # <<>>) IN [i \in DOMAIN t |-> t[i].lin]
LinsGrow(ls) == \A i \in 2..Len(ls) : Len(ls[i]) >= Len(ls[i-1])
Longest(ls) == IF ls = <<>> THEN <<>> ELSE ls[CHOOSE i \in DOMAIN ls : (\A j \in DOMAIN ls : Len(ls[j]) <= Len(ls[i])) /\ (\A j \in 1..(i-1) : Len(ls[j]) < Len(ls[i]))]
LinsConsistent(ls) == \A i \in DOMAIN ls : \A k \in DOMAIN ls[i] : SameNode(ls[i][k], Longest(ls)[k])

LinOut(nodes) == IF nodes = <<>> THEN NoLin ELSE [min |-> LevelP, nodes |-> NodesOut(nodes)]

JudgeSigners(ss0, needMin, needMax) ==
  LET ss == SortByMin(ss0)
      ls == Lins(ss)
  IN [ok |-> /\ ss # <<>>
             /\ Contiguous(ss)
             /\ ss[1].min <= needMin
             /\ ss[Len(ss)].max >= needMax
             /\ LinsGrow(ls)
             /\ LinsConsistent(ls),
      lin |-> Longest(ls)]
=============================================================================
