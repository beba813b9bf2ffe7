-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Which certificate a JAR signature block means (C12).  A signer is       *)
(* identified by the name of its certificate's issuer and a serial number, *)
(* and the chain above it by names alone; names are compared in a          *)
(* canonical form, a text.  Two names are the same iff they are made of    *)
(* the same attributes in the same structure, up to letter case and        *)
(* surplus spaces: the canonical text must neither confuse two names nor   *)
(* tell apart two spellings of one.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS Len1,     \* length of the values in names of one attribute
          Mutant    \* "none", or a way to get the canonical form wrong

Chars == {"a", "A", "b", " ", ",", "+", "=", "\\", "#", "\"", "<", ">", ";"}
Special == {",", "+", "\\", "\"", "<", ">", ";"}
Types == {"CN", "CN1", "O", "OU", "E", "DC"}    \* CN1: an object identifier that begins with that of CN
Rank == [DC |-> 0, E |-> 1, CN |-> 2, CN1 |-> 3, C |-> 4, O |-> 5, OU |-> 6]     \* order of the object identifiers
KnownTypes == {"CN", "O", "OU", "C"}

(* a value: a sequence of characters; an attribute: type and value; an RDN: a sequence of attributes (a set
   in DER, whose order is given by the encoding); a name: a sequence of RDNs *)
Av(t, v) == [t |-> t, v |-> v]

(* --- what a name means --- *)
Lower(c) == IF c = "A" THEN "a" ELSE c
RECURSIVE Squeeze(_)
Squeeze(v) == IF Len(v) < 2 THEN v
              ELSE IF v[1] = " " /\ v[2] = " " THEN Squeeze(Tail(v)) ELSE <<v[1]>> \o Squeeze(Tail(v))
Trim(v) == LET a == IF v # <<>> /\ v[1] = " " THEN Tail(v) ELSE v
           IN IF a # <<>> /\ a[Len(a)] = " " THEN Front(a) ELSE a
Norm(v) == LET s == Trim(Squeeze(v)) IN [i \in DOMAIN s |-> Lower(s[i])]
SortRdn(r) == SortSeq([i \in DOMAIN r |-> [a |-> r[i], i |-> i]],
                      LAMBDA x, y : Rank[x.a.t] < Rank[y.a.t] \/ (Rank[x.a.t] = Rank[y.a.t] /\ x.i < y.i))
MeaningRdn(r) == LET s == SortRdn(r) IN [i \in DOMAIN s |-> Av(s[i].a.t, Norm(s[i].a.v))]
Meaning(n) == [i \in DOMAIN n |-> MeaningRdn(n[i])]
Same(n1, n2) == Meaning(n1) = Meaning(n2)

(* --- the canonical text --- *)
RECURSIVE CanonRest(_, _)
CanonRest(v, acc) ==
  IF v = <<>> THEN acc
  ELSE LET c == v[1] IN
    CanonRest(Tail(v),
      IF c = " " THEN (IF acc = <<>> \/ acc[Len(acc)] = " " THEN acc ELSE Append(acc, " "))
      ELSE IF c \in Special THEN
        CASE Mutant = "dropspecial" -> Append(acc, "\\")
          [] Mutant = "noescape" -> Append(acc, c)
          [] OTHER -> acc \o <<"\\", c>>
      ELSE Append(acc, Lower(c)))
RECURSIVE TrimEnd(_)
TrimEnd(v) == IF v # <<>> /\ v[Len(v)] = " " THEN TrimEnd(Front(v)) ELSE v
CanonVal(v) == TrimEnd(IF v # <<>> /\ v[1] = "#" THEN CanonRest(Tail(v), <<"\\", "#">>) ELSE CanonRest(v, <<>>))
Join(ss, sep) == FoldLeft(LAMBDA acc, s : IF acc = <<"START">> THEN s ELSE acc \o <<sep>> \o s, <<"START">>, ss)
CanonRdn(r) == LET s == SortRdn(r) IN Join([i \in DOMAIN s |-> <<s[i].a.t, "=">> \o CanonVal(s[i].a.v)], "+")
Known(n) == SelectSeq([i \in DOMAIN n |-> SelectSeq(n[i], LAMBDA a : a.t \in KnownTypes)], LAMBDA r : r # <<>>)
Canon(n) == LET m == IF Mutant = "knownonly" THEN Known(n) ELSE n IN Join([i \in DOMAIN m |-> CanonRdn(m[i])], ",")

(* --- the names considered --- *)
RECURSIVE Vals(_)
Vals(k) == IF k = 0 THEN {<<>>} ELSE LET s == Vals(k - 1) IN s \cup {Append(v, c) : v \in {w \in s : Len(w) = k - 1}, c \in Chars}
(* a value that begins with a space and then # is not kept apart by the platforms' form, and not used *)
Plain(v) == ~(Len(v) > 1 /\ v[1] = " " /\ \E i \in 2..Len(v) : v[i] = "#" /\ \A j \in 1..i : j = i \/ v[j] = " ")

DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
PutAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))

(* values one step away *)
NearVals(v) ==
  {w \in {v} \cup {ReplaceAt(v, i, c) : i \in DOMAIN v, c \in Chars} \cup {DropAt(v, i) : i \in DOMAIN v}
         \cup {PutAt(v, i, c) : i \in 1..(Len(v) + 1), c \in Chars} : Plain(w)}

One(t, v) == <<<<Av(t, v)>>>>
Small == {<<"a">>, <<"b">>, <<>>}
Atoms == {Av(t, v) : t \in Types, v \in {<<"a">>, <<"b">>}}
Tuples(S, k) == [1..k -> S]
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* names of up to three attributes, in RDNs of one or two *)
Shapes == {<<1>>, <<1, 1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 1, 1>>}
(* TLC: functions over 1..k are sequences *)
Fill(shape, as) ==
  LET start(i) == SumSeq(SubSeq(shape, 1, i - 1)) IN
    [i \in DOMAIN shape |-> [j \in 1..shape[i] |-> as[start(i) + j]]]
Structured == UNION {{Fill(sh, as) : as \in Tuples({Av("CN", <<"a">>), Av("O", <<"a">>), Av("E", <<"a">>), Av("CN1", <<"a">>), Av("CN", <<"b">>)}, SumSeq(sh))} : sh \in Shapes}
(* names one step away *)
NearNames(n) ==
  LET subst == UNION {{ReplaceAt(n, i, ReplaceAt(n[i], j, a)) : j \in DOMAIN n[i], a \in Atoms} : i \in DOMAIN n}
      swap == {ReplaceAt(ReplaceAt(n, i, n[i+1]), i + 1, n[i]) : i \in 1..(Len(n) - 1)}
      inner == {ReplaceAt(n, i, Reverse(n[i])) : i \in DOMAIN n}
      drop == IF Len(n) > 1 THEN {DropAt(n, i) : i \in DOMAIN n} ELSE {}
      add == {Append(n, <<a>>) : a \in Atoms} \cup {<<<<a>>>> \o n : a \in Atoms}
      merge == {Append(SubSeq(n, 1, i - 1), n[i] \o n[i+1]) \o SubSeq(n, i + 2, Len(n)) : i \in 1..(Len(n) - 1)}
      split == UNION {{SubSeq(n, 1, i - 1) \o <<<<n[i][1]>>, Tail(n[i])>> \o SubSeq(n, i + 1, Len(n))} : i \in {k \in DOMAIN n : Len(n[k]) > 1}}
  IN {n} \cup subst \cup swap \cup inner \cup drop \cup add \cup merge \cup split

----------------------------------------------------------------------------
VARIABLES n1, n2
vars == <<n1, n2>>
Init ==
  \/ \E v \in Vals(Len1) : Plain(v) /\ n1 = One("CN", v) /\ n2 \in {One("CN", w) : w \in NearVals(v)} \cup {One("O", v)}
  \/ n1 \in Structured /\ n2 \in NearNames(n1)
  \* what one attribute's text may look like next to two attributes
  \/ /\ n1 \in {<<<<Av("O", <<"a">>)>>, <<Av("CN", <<"b">>)>>>>, <<<<Av("CN", <<"a">>), Av("O", <<"b">>)>>>>}
     /\ n2 \in {One("O", <<"a", ",", "CN", "=", "b">>), One("CN", <<"a", "+", "O", "=", "b">>), One("O", <<"a", "\\", ",", "CN", "=", "b">>), One("CN", <<"b", ",", "O", "=", "a">>)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Faithful == (Canon(n1) = Canon(n2)) <=> Same(n1, n2)

(* --- what verification makes of it --- *)
(* certificates: issuer, subject, serial number; key says whose key it is *)
Crt(id, iss, sub, ser) == [id |-> id, iss |-> iss, sub |-> sub, ser |-> ser]
Signer(bag, iss, ser) ==
  LET m == {i \in DOMAIN bag : bag[i].ser = ser /\ Same(bag[i].iss, iss)} IN IF m = {} THEN 0 ELSE Min(m)
RECURSIVE Up(_, _)
Up(chain, bag) ==
  LET c == chain[Len(chain)]
      m == {i \in DOMAIN bag : Same(bag[i].sub, c.iss)} IN
    IF Same(c.iss, c.sub) \/ m = {} \/ Len(chain) > Len(bag) THEN chain ELSE Up(Append(chain, bag[Min(m)]), bag)
Ids(chain) == [i \in DOMAIN chain |-> chain[i].id]

(* the block is signed with the key of "real"; "other" has another key *)
Case(bag, iss, ser) ==
  LET s == Signer(bag, iss, ser) IN
    [bag |-> bag, iss |-> iss, ser |-> ser, acc |-> s # 0 /\ bag[s].id = "real",
     chain |-> IF s # 0 /\ bag[s].id = "real" THEN Ids(Up(<<bag[s]>>, bag)) ELSE <<>>]
LeafName == <<<<Av("CN", <<"leaf">>)>>>>
Cases == <<
  \* another certificate with the same serial number is listed first
  Case(<<Crt("other", n2, LeafName, 7), Crt("real", n1, n1, 7)>>, n1, 7),
  \* the signer's certificate has another issuer than the block says
  Case(<<Crt("real", n2, n2, 7)>>, n1, 7),
  \* is it self-issued, and who is above it
  Case(<<Crt("real", n1, n2, 7), Crt("other", n1, n1, 8)>>, n1, 7),
  Case(<<Crt("real", n1, LeafName, 7), Crt("o1", n2, n2, 8), Crt("o2", n1, n1, 9)>>, n1, 7),
  \* is the one above it self-issued
  Case(<<Crt("real", n1, LeafName, 7), Crt("o1", n2, n1, 8), Crt("o2", n1, n2, 9)>>, n1, 7)
>>
Emit == PrintT("@@" \o ToJson([n1 |-> n1, n2 |-> n2, same |-> Same(n1, n2), cases |-> Cases]))
=============================================================================
