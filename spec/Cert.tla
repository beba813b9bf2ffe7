-------------------------------- MODULE Cert --------------------------------
(***************************************************************************)
(* What a certificate says (C30): certificates put together from parts,    *)
(* and what the strict reader (the one of the standard library) and the    *)
(* lenient one make of them.  Agree: what the strict one accepts means the *)
(* same to the lenient one, but for what the latter has no notion of.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS MaxEdits,
          MaxList, \* items of an extension
          Parts,   \* which parts may be edited
          Sample,  \* 1 in so many of those with MaxEdits edits are tried on the implementation
          Mutant

Has(s, x) == x \in Range(s)
Pick(s, S) == SelectSeq(s, LAMBDA x : x \in S)

(* --- certificates --- *)
A(t, k, v) == [t |-> t, k |-> k, v |-> v]
Ext(id, crit, x) == [id |-> id, crit |-> crit, x |-> x]
Base == [version |-> 3, serial |-> "1", sig |-> "rsa256", outer |-> "same", issuer |-> <<<<A("CN", "utf8", "A")>>>>, subject |-> <<<<A("CN", "utf8", "B")>>>>,
         nb |-> "utc2019", na |-> "gen2050", key |-> "rsaA", uid |-> "none", exts |-> <<>>]

Serials == {"0", "127", "128", "255", "256", "big", "negative", "big8"}
Sigs == {"rsamd5", "rsa1", "rsa1iso", "rsa384", "rsa512", "rsaabsent", "pss256", "pss384", "pss512", "psssalt", "psstrailer", "pssmgf", "pssparams", "dsa1", "dsa256", "ec1", "ec256", "ec384", "ec512", "other"}
Keys == {"rsaB", "rsaNoNull", "rsaNegative", "rsaF0", "rsaBigE", "ecA", "p224", "p384", "p521", "dsaA", "dsaB", "ed", "other"}
Texts == {"A", "B", "e", "empty", "long"}
Kinds == {"utf8", "t61", "bmp"}
StringAtvs == {A("CN", k, v) : k \in Kinds, v \in Texts} \cup {A("O", k, v) : k \in {"printable", "ia5"}, v \in {"A", "B", "empty", "long"}} \cup {A("O", "numeric", "42"), A("OU", "printable", "at"), A("OU", "general", "A")}
AttrAtvs == {A(t, "utf8", "A") : t \in {"C", "L", "ST", "STREET", "O", "OU", "SERIAL", "POSTAL", "GIVEN", "EMAIL", "DC", "TITLE"}}
OtherAtvs == {A("CN", k, "A") : k \in {"int", "oid", "octets", "bits", "bool", "utc", "null"}}
Names == {<<<<a>>>> : a \in StringAtvs \cup AttrAtvs \cup OtherAtvs}
         \cup {<<>>, <<<<>>>>, <<<<A("O", "utf8", "A")>>, <<A("CN", "utf8", "A")>>, <<A("CN", "printable", "B")>>>>, <<<<A("OU", "utf8", "A"), A("OU", "utf8", "B")>>, <<A("OU", "bmp", "A")>>>>,
               <<<<A("CN", "utf8", "A"), A("O", "utf8", "B")>>>>, <<<<A("CN", "utf8", "A")>>, <<A("CN", "int", "A")>>>>, <<<<A("C", "printable", "A")>>, <<A("C", "printable", "B")>>, <<A("SERIAL", "printable", "A")>>, <<A("SERIAL", "printable", "B")>>>>}
Befores == {"utc1950", "utc1999", "utc2049", "gen1949", "gen2019", "utcMinutes", "utcZone", "gen0000"}
Afters == {"utc2049", "gen9999", "gen2019", "gen2051", "utc1999", "genFraction"}

Seqs(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Exts ==
  {Ext("ku", c, x) : c \in {TRUE, FALSE}, x \in {<<>>, <<"0">>, <<"5", "6">>, <<"0", "1", "2", "3", "4", "5", "6", "7">>, <<"8">>, <<"7">>, <<"0", "8">>}}
  \cup {Ext("bc", c, <<a, p>>) : c \in {TRUE, FALSE}, a \in {"ca", "not"}, p \in {"none", "0", "1", "300"}}
  \cup {Ext("san", c, x) : c \in {TRUE, FALSE}, x \in Seqs({"d1", "d2", "e1", "i4", "i6", "u1", "dir", "oth", "rid"}, MaxList)}
  \cup {Ext("nc", c, x) : c \in {TRUE, FALSE}, x \in Seqs({"pd1", "pd2", "xd1", "pe1", "xe1", "pi4", "xi6", "pu1", "xdir", "pd1m"}, MaxList)}
  \cup {Ext("cdp", c, x) : c \in {TRUE, FALSE}, x \in Seqs({"u1", "u2", "u1u2", "diru1", "u1dir", "issuer", "u2r", "u1c"}, MaxList)}
  \cup {Ext("akid", c, x) : c \in {TRUE, FALSE}, x \in {<<"k">>, <<"k", "s">>, <<"s">>, <<>>}}
  \cup {Ext("skid", c, x) : c \in {TRUE, FALSE}, x \in {<<"k">>, <<>>}}
  \cup {Ext("eku", c, x) : c \in {TRUE, FALSE}, x \in Seqs({"server", "code", "any", "ms1", "unk1"}, MaxList) \cup {<<e>> : e \in {"client", "email", "ipsec1", "ipsec2", "ipsec3", "time", "ocsp", "sgcms", "sgcns", "ms2", "unk2"}}}
  \cup {Ext("pol", c, x) : c \in {TRUE, FALSE}, x \in Seqs({"p1", "p2q", "any", "huge"}, MaxList)}
  \cup {Ext("aia", c, x) : c \in {TRUE, FALSE}, x \in Seqs({"oc1", "oc2", "is1", "ocdir", "rep"}, MaxList)}
  \cup {Ext(id, c, <<>>) : c \in {TRUE, FALSE}, id \in {"pm", "pc", "iap", "ce9", "unk", "ns", "unkEmpty"}}

(* --- reading --- *)
Handled(id, lenient) == id \in {"ku", "bc", "cdp", "akid", "skid", "eku", "pol", "aia"} \cup (IF lenient THEN {} ELSE {"pm", "pc", "iap"})
NcBase(t) == CASE t \in {"pd1", "xd1", "pd1m"} -> "d1" [] t = "pd2" -> "d2" [] OTHER -> ""
Permitted == {"pd1", "pd2", "pe1", "pi4", "pu1", "pd1m"}
DnsTrees(x, side) == LET s == SelectSeq(x, LAMBDA t : NcBase(t) # "" /\ (t \in Permitted) = (side = "p")) IN [i \in DOMAIN s |-> NcBase(s[i])]
PointUris(t) == CASE t \in {"u1", "u1dir", "u1c"} -> <<"u1">> [] t \in {"u2", "u2r"} -> <<"u2">> [] t = "u1u2" -> <<"u1", "u2">> [] OTHER -> <<>>
Unhandled(e, lenient) ==
  CASE e.id = "san" -> Pick(e.x, {"d1", "d2", "e1", "i4", "i6"} \cup (IF lenient THEN {} ELSE {"u1"})) = <<>>
    [] e.id = "nc" -> IF lenient THEN \E i \in DOMAIN e.x : NcBase(e.x[i]) = "" ELSE Has(e.x, "xdir")
    [] OTHER -> ~Handled(e.id, lenient)
StrictUsages == {"any", "server", "client", "code", "email", "ipsec1", "ipsec2", "ipsec3", "time", "ocsp", "sgcms", "sgcns", "ms1", "ms2"}
Usages(lenient) == IF lenient THEN StrictUsages \ {"ms1", "ms2"} ELSE StrictUsages

NoExt == [x |-> <<>>, there |-> FALSE, crit |-> FALSE]
E(c, id) == LET s == SelectSeq(c.exts, LAMBDA e : e.id = id) IN IF s = <<>> THEN NoExt ELSE [x |-> s[Len(s)].x, there |-> TRUE, crit |-> s[Len(s)].crit]

StringKinds == {"utf8", "t61", "bmp", "printable", "ia5", "numeric"}
NameV(n) ==
  LET all == FlattenSeq(n)
      vals(t) == LET s == SelectSeq(all, LAMBDA a : a.t = t /\ a.k \in StringKinds) IN [i \in DOMAIN s |-> s[i].v]
      last(t) == LET s == vals(t) IN IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>> IN
    [CN |-> last("CN"), SERIAL |-> last("SERIAL"), C |-> vals("C"), L |-> vals("L"), ST |-> vals("ST"), STREET |-> vals("STREET"), O |-> vals("O"), OU |-> vals("OU"), POSTAL |-> vals("POSTAL"), all |-> all]

SigV(s, lenient) == CASE s \in {"rsa1iso"} -> "rsa1" [] s = "rsaabsent" -> "rsa256" [] s = "pssparams" -> IF lenient /\ Mutant = "pss" THEN "unknown" ELSE "pss256" [] s \in {"psssalt", "psstrailer", "pssmgf", "other"} -> "unknown" [] OTHER -> s
KeyV(k, lenient) == CASE k \in {"rsaNoNull", "rsaNegative"} -> "rsaA" [] k = "ed" /\ lenient -> "none" [] k = "other" -> "none" [] OTHER -> k

Meaning(c, lenient) ==
  LET bc == E(c, "bc")
      nc == E(c, "nc")
      eku == E(c, "eku").x
      aia == E(c, "aia").x IN
  [version |-> c.version, serial |-> c.serial, sig |-> SigV(c.sig, lenient), issuer |-> NameV(c.issuer), subject |-> NameV(c.subject), nb |-> c.nb, na |-> c.na, key |-> KeyV(c.key, lenient),
   ku |-> IF lenient /\ Mutant = "ku8" THEN Pick(E(c, "ku").x, {"0", "1", "2", "3", "4", "5", "6", "7"}) ELSE E(c, "ku").x,
   bcValid |-> bc.there, ca |-> bc.there /\ bc.x[1] = "ca", path |-> IF ~bc.there THEN "0" ELSE IF bc.x[2] = "none" THEN (IF lenient /\ Mutant = "path" THEN "0" ELSE "-1") ELSE bc.x[2], pathZero |-> bc.there /\ bc.x[2] = "0",
   dns |-> Pick(E(c, "san").x, {"d1", "d2"}), emails |-> Pick(E(c, "san").x, {"e1"}), ips |-> Pick(E(c, "san").x, {"i4", "i6"}),
   ncCritical |-> nc.there /\ nc.crit, permitted |-> DnsTrees(nc.x, "p"), excluded |-> DnsTrees(nc.x, "x"),
   crl |-> LET x == E(c, "cdp").x IN FlattenSeq([i \in DOMAIN x |-> IF lenient /\ Mutant = "onecrl" THEN SubSeq(PointUris(x[i]), 1, IF PointUris(x[i]) = <<>> THEN 0 ELSE 1) ELSE PointUris(x[i])]),
   akid |-> Pick(E(c, "akid").x, {"k"}), skid |-> E(c, "skid").x,
   eku |-> Pick(eku, Usages(lenient)), ekuOther |-> SelectSeq(eku, LAMBDA u : u \notin Usages(lenient)),
   pol |-> LET p == Pick(E(c, "pol").x, {"p1", "p2q", "any"}) IN p,
   ocsp |-> Pick(aia, {"oc1", "oc2"}), issuing |-> Pick(aia, {"is1"}),
   unhandled |-> LET u == SelectSeq(c.exts, LAMBDA e : e.crit /\ Unhandled(e, lenient)) IN [i \in DOMAIN u |-> u[i].id]]

NameOk(n, lenient) == \A i \in DOMAIN n : \A j \in DOMAIN n[i] : ~(n[i][j].k = "printable" /\ n[i][j].v = "at") \/ lenient
Dup(x) == \E i, j \in DOMAIN x : i # j /\ x[i] = x[j]
Accepts(c, lenient) ==
  /\ NameOk(c.issuer, lenient) /\ NameOk(c.subject, lenient)
  /\ c.na # "genFraction" \/ lenient
  /\ ~lenient => /\ c.serial # "negative" /\ c.outer = "same" /\ c.key \notin {"rsaNoNull", "rsaNegative"}
                 /\ \A id \in {"akid", "skid", "aia"} : ~E(c, id).crit
                 /\ ~Dup(E(c, "pol").x)
                 /\ E(c, "nc").there => E(c, "nc").x # <<>>
  /\ lenient /\ Mutant = "ncError" => ~(E(c, "nc").crit /\ \E i \in DOMAIN E(c, "nc").x : NcBase(E(c, "nc").x[i]) = "")

(* --- putting one together --- *)
VARIABLES c, edited, n
vars == <<c, edited, n>>
Init == c = Base /\ edited = {} /\ n = 0
Put(part, d) == part \in Parts /\ part \notin edited /\ n < MaxEdits /\ c' = d /\ edited' = edited \cup {part} /\ n' = n + 1
Edit ==
  \/ \E v \in Serials : Put("serial", [c EXCEPT !.serial = v])
  \/ \E v \in Sigs : Put("sig", [c EXCEPT !.sig = v])
  \/ Put("outer", [c EXCEPT !.outer = "other"])
  \/ \E v \in Keys : Put("key", [c EXCEPT !.key = v])
  \/ \E v \in Names : Put("subject", [c EXCEPT !.subject = v])
  \/ \E v \in Names : Put("issuer", [c EXCEPT !.issuer = v])
  \/ \E v \in Befores : Put("nb", [c EXCEPT !.nb = v])
  \/ \E v \in Afters : Put("na", [c EXCEPT !.na = v])
  \/ \E v \in 1 .. 2 : c.exts = <<>> /\ (v = 2 \/ c.uid = "none") /\ Put("version", [c EXCEPT !.version = v])
  \/ \E v \in {"i", "s", "is"} : c.version > 1 /\ Put("uid", [c EXCEPT !.uid = v])
  \/ \E e \in Exts : /\ "exts" \in Parts /\ c.version = 3 /\ n < MaxEdits /\ \A i \in DOMAIN c.exts : c.exts[i].id # e.id
                     /\ c' = [c EXCEPT !.exts = Append(@, e)] /\ n' = n + 1 /\ UNCHANGED edited
Next == Edit
Spec == Init /\ [][Next]_vars

Agree ==
  Accepts(c, FALSE) =>
    LET s == Meaning(c, FALSE)
        l == Meaning(c, TRUE) IN
      /\ Accepts(c, TRUE)
      /\ [l EXCEPT !.unhandled = <<>>, !.eku = <<>>, !.ekuOther = <<>>, !.key = ""] = [s EXCEPT !.unhandled = <<>>, !.eku = <<>>, !.ekuOther = <<>>, !.key = ""]
      /\ Range(s.unhandled) \subseteq Range(l.unhandled)
      /\ l.eku = Pick(s.eku, Usages(TRUE)) /\ Pick(l.ekuOther, Range(s.ekuOther)) = s.ekuOther
      /\ c.key # "ed" => l.key = s.key
Emit == (n = MaxEdits /\ Sample > 1 => RandomElement(1 .. Sample) = 1) =>
  PrintT("@@" \o ToJson([c |-> c, strict |-> Accepts(c, FALSE), sm |-> Meaning(c, FALSE), lm |-> Meaning(c, TRUE), lenient |-> Accepts(c, TRUE)]))
=============================================================================
