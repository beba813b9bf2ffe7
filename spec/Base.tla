-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* What the whole specification shares: platform levels, algorithms, the   *)
(* (fixed, test) public key infrastructure, and the ideal cryptography.    *)
(*                                                                         *)
(* An abstract APK is a record (see harness/types.go, which gives it bytes)*)
(* that says, for every signature, who made it (k), how (m) and over what  *)
(* (o = "this": the data next to it, "other": something else); for every   *)
(* digest whether it is the right one (good) or not.  Ideal cryptography:  *)
(* a signature verifies iff it was made by that key in that way over that  *)
(* data.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

MaxInt == 2147483647
AnyMin == -1

LevelJBMR2 == 18
LevelM == 23
LevelN == 24
LevelO == 26
LevelP == 28
LevelR == 30
LevelT == 33

Max2(a, b) == IF a > b THEN a ELSE b

----------------------------------------------------------------------------
(* Signature algorithms of the signing block *)
Alg(dig, cls, typ, jca) == [dig |-> dig, cls |-> cls, typ |-> typ, jca |-> jca]

AlgTab ==
  [ pss256 |-> Alg("c256", "pss256", "rsa", LevelM),
    pss512 |-> Alg("c512", "pss512", "rsa", LevelM),
    rsa256 |-> Alg("c256", "rsa256", "rsa", 1),
    rsa512 |-> Alg("c512", "rsa512", "rsa", 1),
    ec256  |-> Alg("c256", "ec256", "ec", 11),
    ec512  |-> Alg("c512", "ec512", "ec", 11),
    dsa256 |-> Alg("c256", "dsa256", "dsa", 1),
    vrsa   |-> Alg("v256", "rsa256", "rsa", 1),
    vec    |-> Alg("v256", "ec256", "ec", 11),
    vdsa   |-> Alg("v256", "dsa256", "dsa", 1) ]

Supported(a) == a \in DOMAIN AlgTab
DigOf(a) == AlgTab[a].dig
RankOfDig == [c256 |-> 1, v256 |-> 2, c512 |-> 3]
Rank(a) == RankOfDig[DigOf(a)]

----------------------------------------------------------------------------
(* Keys and certificates (harness/pki.go) *)
KeyTyp ==
  [ rsaA |-> "rsa", rsaB |-> "rsa", rsaC |-> "rsa", rsaL |-> "rsa",
    ecA |-> "ec", ecB |-> "ec", ecC |-> "ec", ecD |-> "ec", ecE |-> "ec", ecI |-> "ec", ecL |-> "ec",
    frost |-> "ec", frost2 |-> "ec", dsaA |-> "dsa", dsaB |-> "dsa", edA |-> "ed" ]

Crt(key, subj, iss, serial, crit) == [key |-> key, subj |-> subj, iss |-> iss, serial |-> serial, crit |-> crit]

CertTab ==
  [ rsaA |-> Crt("rsaA", "rsaA", "rsaA", 1001, FALSE),
    rsaB |-> Crt("rsaB", "rsaB", "rsaB", 1002, FALSE),
    rsaC |-> Crt("rsaC", "rsaC", "rsaC", 1003, FALSE),
    ecA |-> Crt("ecA", "ecA", "ecA", 2001, FALSE),
    ecB |-> Crt("ecB", "ecB", "ecB", 2002, FALSE),
    ecC |-> Crt("ecC", "ecC", "ecC", 2003, FALSE),
    ecD |-> Crt("ecD", "ecD", "ecD", 2004, FALSE),
    ecE |-> Crt("ecE", "ecE", "ecE", 2005, FALSE),
    dsaA |-> Crt("dsaA", "dsaA", "dsaA", 3001, FALSE),
    dsaB |-> Crt("dsaB", "dsaB", "dsaB", 3002, FALSE),
    edA |-> Crt("edA", "edA", "edA", 4001, FALSE),
    ecA2 |-> Crt("ecA", "ecA", "ecA", 2011, FALSE),
    fakeRA |-> Crt("rsaB", "rsaA", "rsaA", 1001, FALSE),
    twinR |-> Crt("rsaB", "twinR", "twinR", 1001, FALSE),
    leafRA |-> Crt("rsaL", "leafRA", "rsaA", 5001, FALSE),
    leafEA |-> Crt("ecL", "leafEA", "interEA", 5002, FALSE),
    interEA |-> Crt("ecI", "interEA", "ecA", 5003, FALSE),
    interE2 |-> Crt("ecI", "interEA", "ecA", 5004, FALSE),
    negR |-> Crt("rsaA", "rsaA", "rsaA", -1001, FALSE),   \* only named by signers, there is no such certificate
    crit |-> Crt("rsaC", "crit", "crit", 6001, TRUE),
    expR |-> Crt("rsaB", "expR", "expR", 6002, FALSE) ]

Parses(c) == c \in DOMAIN CertTab
KeyOf(c) == CertTab[c].key

(* Is made-by-key-k-with-m over o a signature that key verifies with algorithm a over its own data? *)
Genuine(k, m, o, f, key, a) ==
  /\ f = "ok" /\ o = "this" /\ k = key
  /\ Supported(a) /\ Supported(m)
  /\ AlgTab[a].typ = KeyTyp[key]
  /\ AlgTab[m].cls = AlgTab[a].cls

SigVerifies(s, key, a) == Genuine(s.k, s.m, s.o, s.f, key, a)

----------------------------------------------------------------------------
(* Helpers on sequences *)
LastIdx(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
FirstIdx(s, P(_)) == LET I == {i \in DOMAIN s : P(s[i])} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j >= i

NoNodes == << >>
NoLin == [min |-> 0, nodes |-> NoNodes]
NodeOut(n) == [c |-> n.c, pa |-> n.pa, na |-> n.na, fl |-> n.fl]
NodesOut(ns) == [i \in DOMAIN ns |-> NodeOut(ns[i])]
=============================================================================
