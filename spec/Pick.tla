-------------------------------- MODULE Pick --------------------------------
(***************************************************************************)
(* Choosing the best certificate among extracted chains, and describing it *)
(* (C26).  A certificate: rank of its signature algorithm, begin and end   *)
(* of its validity relative to now (0).  The choice is a knock-out: any    *)
(* two remaining certificates are compared, the lesser one is out - which  *)
(* two is open, as is the order of the chains.  Whatever the order, what   *)
(* remains must be a best one by the declarative meaning.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Randomization, Json

CONSTANTS Algs, MaxPick, Big, NameLen

Times == {-3, -2, -1, 1, 2, 3}
Cert(a, f, t) == [alg |-> a, from |-> f, to |-> t]
Proper == {c \in {Cert(a, f, t) : a \in Algs, f \in Times, t \in Times} : c.from < c.to}

Valid(c) == c.from < 0 /\ c.to > 0

(* the pairwise comparison *)
Better(c, d) ==
  IF c.alg # d.alg THEN c.alg > d.alg
  ELSE IF Valid(c) # Valid(d) THEN Valid(c)
  ELSE IF c.from # d.from THEN c.from > d.from
  ELSE c.to > d.to

(* the meaning: filter the set, one criterion after the other *)
MaxBy(S, F(_)) == {c \in S : \A d \in S : F(c) >= F(d)}
Best(S) ==
  LET s1 == MaxBy(S, LAMBDA c : c.alg)
      s2 == IF \E c \in s1 : Valid(c) THEN {c \in s1 : Valid(c)} ELSE s1
      s3 == MaxBy(s2, LAMBDA c : c.from)
  IN MaxBy(s3, LAMBDA c : c.to)

(* --- names --- *)
NameTypes == <<"C", "ST", "L", "O", "OU", "CN">>
AllTypes == {"C", "ST", "L", "O", "OU", "CN", "SERIALNUMBER", "DC"}
Values == {"x", "Y z"}
Atv(t, v) == [t |-> t, v |-> v]
RECURSIVE NamesOf(_)
NamesOf(n) == IF n = 0 THEN {<<>>} ELSE LET s == NamesOf(n - 1) IN s \cup {Append(x, Atv(t, v)) : x \in {y \in s : Len(y) = n - 1}, t \in AllTypes, v \in {"x", "Y z"}}

Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, s : acc \o sep \o s, ss[1], Tail(ss))
ValuesOf(nm, t) ==
  LET vs == SelectSeq(nm, LAMBDA a : a.t = t) IN
    IF t = "CN" /\ vs # <<>> THEN <<vs[Len(vs)].v>>      \* a name has one common name: the last
    ELSE [i \in DOMAIN vs |-> vs[i].v]
NameString(nm) ==
  LET parts == [i \in DOMAIN NameTypes |-> IF ValuesOf(nm, NameTypes[i]) = <<>> THEN "" ELSE NameTypes[i] \o "=" \o Join(ValuesOf(nm, NameTypes[i]), ";")]
  IN Join(SelectSeq(parts, LAMBDA p : p # ""), ", ")

----------------------------------------------------------------------------
VARIABLES kind, given, left, name
vars == <<kind, given, left, name>>

RECURSIVE Subs(_, _)
Subs(S, n) == IF n = 0 THEN {{}} ELSE LET s == Subs(S, n - 1) IN s \cup {T \cup {c} : T \in {U \in s : Cardinality(U) = n - 1}, c \in S}

Init ==
  \/ kind = "pick" /\ given \in Subs(Proper, MaxPick) /\ left = given /\ name = <<>>
  \/ kind = "pick" /\ given \in RandomSetOfSubsets(Big, 15, Proper) /\ left = given /\ name = <<>>
  \/ kind = "name" /\ name \in NamesOf(NameLen) /\ given = {} /\ left = {}

(* in large sets only the comparison of the first two in some order is followed *)
Compare(c, d) == c # d /\ c \in left /\ d \in left /\ left' = left \ {IF Better(c, d) THEN d ELSE c} /\ UNCHANGED <<kind, given, name>>
Next == kind = "pick" /\ Cardinality(left) > 1 /\
  IF Cardinality(given) <= MaxPick THEN \E c, d \in left : Compare(c, d)
  ELSE LET c == CHOOSE x \in left : TRUE IN Compare(c, CHOOSE d \in left \ {c} : TRUE)
Spec == Init /\ [][Next]_vars

Finished == kind = "name" \/ Cardinality(left) <= 1
Holds == (kind = "pick" /\ Finished) => (left = Best(given) /\ (given # {} => left # {}))
(* exactly one of two different certificates is the better one *)
Total == kind = "pick" => \A c, d \in given : c # d => (Better(c, d) # Better(d, c))

Emit ==
  Finished => PrintT("@@" \o ToJson(IF kind = "pick" THEN [kind |-> "pick", certs |-> SetToSeq(given), best |-> SetToSeq(left), name |-> <<>>, str |-> ""]
                                    ELSE [kind |-> "name", certs |-> <<>>, best |-> <<>>, name |-> name, str |-> NameString(name)]))
=============================================================================
