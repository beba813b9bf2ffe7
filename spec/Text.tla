-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text of MANIFEST.MF and of signature files, read as Android's       *)
(* StrictJarManifestReader reads it, and what the JAR signature makes of   *)
(* it (C29).  A text is a sequence of tokens; the characters with a        *)
(* meaning (colon, space, CR, LF, NUL) are tokens of their own, so reading *)
(* tokens is reading bytes.                                                *)
(*                                                                         *)
(* Mode "spell": a document is spelled line by line: any line ends, names  *)
(* in any case, values continued on further lines at any place, sections   *)
(* in any order, blank lines more or the last one less.  Spelled: it means *)
(* what the document says.                                                 *)
(* Mode "edit": any change of a few tokens of such a text, or a section more *)
(* of a name it has already; what it means then, and whether an APK signed *)
(* over it is accepted, is emitted.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS Mode, Which,   \* "spell" or "edit"; "mf", "sf" or "sfc" (signature file with a digest per section)
          MaxEdits, Eols,
          First, Then,   \* tokens put in by the first edit, and by further ones
          Sample, Mutant

Has(s, x) == x \in Range(s)
Lower(t) == CASE t \in {"Name", "NAME"} -> "name" [] t = "D" -> "d" [] t = "S" -> "s" [] t = "MV" -> "mv" [] t = "CB" -> "cb" [] t = "SV" -> "sv" [] t = "W" -> "w" [] t = "MM" -> "mm" [] t = "XA" -> "xa" [] OTHER -> t
NameLen(t) == CASE t \in {"Name", "name", "NAME"} -> 4 [] t \in {"D", "d", "S", "s"} -> 14 [] t \in {"MV", "mv"} -> 16 [] t \in {"CB", "cb"} -> 10 [] t \in {"SV", "sv"} -> 17 [] t \in {"W", "w"} -> 23 [] t \in {"MM", "mm"} -> 39
                [] t \in {"XA", "xa"} -> 20 [] t = "L35" -> 35 [] t \in {"x", "2", "C3", "A9"} -> 1 [] t = "st" -> 8 [] t = "classes" -> 7 [] OTHER -> 1
InName(t) == t \in {"Name", "name", "NAME", "D", "d", "S", "s", "MV", "mv", "CB", "cb", "SV", "sv", "W", "w", "MM", "mm", "XA", "xa", "L35", "x", "2", "st", "classes"}
NameOk(nm) == nm # <<>> /\ (\A i \in DOMAIN nm : InName(nm[i])) /\ FoldLeft(LAMBDA a, t : a + NameLen(t), 0, nm) <= (IF Mutant = "longname" THEN 71 ELSE 70)

(* --- reading --- *)
S0 == [ph |-> "name", nm |-> <<>>, buf |-> <<>>, clb |-> 0, cr |-> FALSE, err |-> FALSE, sec |-> 0, open |-> FALSE, main |-> <<>>, mainEnd |-> 0, cur |-> [n |-> <<>>, from |-> 0, to |-> 0, at |-> <<>>], secs |-> <<>>]
Lowered(nm) == IF Mutant = "case" THEN nm ELSE [i \in DOMAIN nm |-> Lower(nm[i])]
CloseHeader(s) ==
  LET n == Lowered(s.nm)
      h == [n |-> n, v |-> s.buf] IN
    IF s.sec = 0 THEN [s EXCEPT !.main = Append(@, h)]
    ELSE IF ~s.open THEN (IF n = <<"name">> THEN [s EXCEPT !.open = TRUE, !.cur = [n |-> s.buf, from |-> s.cur.from, to |-> 0, at |-> <<>>]] ELSE [s EXCEPT !.err = TRUE])
    ELSE [s EXCEPT !.cur.at = Append(@, h)]
(* i: the first token of what follows *)
CloseSection(s, i, strict) ==
  IF s.sec = 0 THEN [s EXCEPT !.sec = 1, !.open = FALSE, !.mainEnd = i - 1, !.cur = [n |-> <<>>, from |-> i, to |-> 0, at |-> <<>>]]
  ELSE IF ~s.open THEN s
  ELSE IF strict /\ (\E k \in DOMAIN s.secs : s.secs[k].n = s.cur.n) THEN [s EXCEPT !.err = TRUE]
  ELSE [s EXCEPT !.secs = Append(@, [s.cur EXCEPT !.to = i - 1]), !.open = FALSE, !.sec = @ + 1, !.cur = [n |-> <<>>, from |-> i, to |-> 0, at |-> <<>>]]
InNameStep(s, t) == IF t = ":" THEN [s EXCEPT !.ph = "sp"] ELSE [s EXCEPT !.nm = Append(@, t)]
ToName(s) == [s EXCEPT !.ph = "name", !.nm = <<>>, !.buf = <<>>, !.clb = 0, !.cr = FALSE]
Step(s, t, i, strict) ==
  IF s.err THEN s
  ELSE CASE s.ph = "name" -> InNameStep(s, t)
         [] s.ph = "sp" -> IF t # "_" \/ ~NameOk(s.nm) THEN [s EXCEPT !.err = TRUE] ELSE [s EXCEPT !.ph = "val", !.buf = <<>>, !.clb = 0, !.cr = FALSE]
         [] s.ph = "val" ->
              IF t = "NUL" THEN [s EXCEPT !.err = TRUE]
              ELSE IF t = "LF" THEN (IF s.cr THEN [s EXCEPT !.cr = FALSE] ELSE [s EXCEPT !.clb = @ + 1])
              ELSE IF t = "CR" THEN (IF Mutant = "nocr" THEN s ELSE [s EXCEPT !.cr = TRUE, !.clb = @ + 1])
              ELSE IF t = "_" /\ s.clb = 1 THEN [s EXCEPT !.clb = 0, !.buf = IF Mutant = "wrap" THEN Append(@, "_") ELSE @]
              ELSE IF s.clb = 0 THEN [s EXCEPT !.buf = Append(@, t)]
              ELSE LET h == CloseHeader(s)
                       c == IF s.clb > 1 /\ ~h.err THEN CloseSection(h, i, strict) ELSE h IN
                     InNameStep(ToName(c), t)
Finish(s, len, strict) ==
  IF s.err THEN s
  ELSE IF s.ph = "sp" THEN [s EXCEPT !.err = TRUE]
  ELSE LET h == IF s.ph = "val" /\ s.clb > 0 THEN CloseHeader(s) ELSE s IN
         IF h.err THEN h ELSE CloseSection(h, len + 1, strict)
Read(t, strict) == Finish(FoldLeftDomain(LAMBDA s, i : Step(s, t[i], i, strict), S0, t), Len(t), strict)

Attr(at, n) == LET k == SelectInSeq(Reverse(at), LAMBDA h : h.n = n) IN IF k = 0 THEN <<>> ELSE <<at[Len(at) + 1 - k].v>>
Merged(secs, n) == FlattenSeq([k \in DOMAIN secs |-> IF secs[k].n = n THEN secs[k].at ELSE <<>>])
SecNames(secs) == {secs[k].n : k \in DOMAIN secs}

(* --- what the JAR signature makes of it --- *)
Files == {<<"AM">>, <<"res/", "x.txt">>, <<"classes", ".dex">>, <<"C3", "A9">>}
InArchive == Files \cup {<<"META-INF/MANIFEST.MF">>}
DigestOf(n) == CASE n = <<"AM">> -> <<"a1", "a2">> [] n = <<"res/", "x.txt">> -> <<"r1", "r2">> [] n = <<"classes", ".dex">> -> <<"c1", "c2">> [] n = <<"C3", "A9">> -> <<"u1", "u2">>
ChunkDigestOf(n) == CASE n = <<"AM">> -> <<"ka1", "ka2">> [] n = <<"res/", "x.txt">> -> <<"kr1", "kr2">> [] n = <<"classes", ".dex">> -> <<"kc1", "kc2">> [] n = <<"C3", "A9">> -> <<"ku1", "ku2">> [] OTHER -> <<>>
(* SHA-512 comes first, and no value here is one *)
DigestOk(at, good) == Attr(at, <<"s">>) = <<>> /\ Attr(at, <<"d">>) = <<good>>
MfAccepts(r) ==
  /\ ~r.err
  /\ SecNames(r.secs) \subseteq InArchive
  /\ \A f \in Files : f \in SecNames(r.secs) /\ DigestOk(Merged(r.secs, f), DigestOf(f))

Commas(v) == SelectSeq([i \in DOMAIN v |-> i], LAMBDA i : v[i] = ",")
Trim(v) == LET k == SelectSeq([i \in DOMAIN v |-> i], LAMBDA i : v[i] \notin {"_", "TAB"}) IN IF k = <<>> THEN <<>> ELSE SubSeq(v, k[1], k[Len(k)])
Ids(v) == LET c == <<0>> \o Commas(v) \o <<Len(v) + 1>> IN {Trim(SubSeq(v, c[i] + 1, c[i + 1] - 1)) : i \in 1 .. (Len(c) - 1)}
Declares(r) == LET v == Attr(r.main, <<"xa">>) IN v # <<>> /\ <<"2">> \in Ids(v[1])
SfAccepts(r) ==
  LET tool == LET v == Attr(r.main, <<"cb">>) IN v # <<>> /\ Has(v[1], "st")
      main == Attr(r.main, <<"mm">>)
      whole == IF tool THEN Attr(r.main, <<"s">>) = <<>> /\ Attr(r.main, <<"d">>) = <<<<"w1", "w2">>>> ELSE Attr(r.main, <<"w">>) = <<<<"w1", "w2">>>> IN
  /\ ~r.err
  /\ ~Declares(r)
  /\ Attr(r.main, <<"sv">>) # <<>>
  /\ tool \/ main = <<>> \/ main = <<<<"m1", "m2">>>>
  /\ \/ whole
     \/ r.secs # <<>> /\ \A n \in SecNames(r.secs) : n \in Files /\ DigestOk(Merged(r.secs, n), ChunkDigestOf(n))
  /\ \A f \in Files : f \in SecNames(r.secs)

(* --- documents --- *)
H(n, v) == [n |-> n, v |-> v]
Order == <<<<"res/", "x.txt">>, <<"AM">>, <<"classes", ".dex">>, <<"C3", "A9">>>>
MainOf == CASE Which = "mf" -> <<H("MV", <<"1.0">>), H("CB", <<"1.0">>)>>
            [] Which = "sf" -> <<H("SV", <<"1.0">>), H("W", <<"w1", "w2">>), H("CB", <<"1.0">>)>>
            [] Which = "sfc" -> <<H("SV", <<"1.0">>), H("MM", <<"m1", "m2">>), H("XA", <<"x", ",", "_", "x">>)>>
SecOf(n) == <<H("Name", n), H("D", IF Which = "mf" THEN DigestOf(n) ELSE ChunkDigestOf(n))>>
Doc == <<MainOf>> \o [k \in DOMAIN Order |-> SecOf(Order[k])]
EolToks(e) == CASE e = "crlf" -> <<"CR", "LF">> [] e = "cr" -> <<"CR">> [] e = "lf" -> <<"LF">>
Plain(e) == FlattenSeq([k \in DOMAIN Doc |-> FlattenSeq([j \in DOMAIN Doc[k] |-> <<Doc[k][j].n, ":", "_">> \o Doc[k][j].v \o EolToks(e)]) \o EolToks(e)])

VARIABLES t,    \* the text so far, or edited
          k, j, \* spell: section and line to be spelled next
          todo, \* spell: sections not yet spelled
          n,    \* deviations or edits so far
          last, \* edit: where
          eol,
          twice, \* edit: a section was put in whose name another may have
          mixed \* spell: a lone CR met an LF that is not its own (there Android itself goes astray)
vars == <<t, k, j, todo, n, last, eol, twice, mixed>>

Ends(x) == x # <<>> /\ x[Len(x)] = "CR"
OtherCase(nm) == IF nm = "Name" THEN {"name", "NAME"} ELSE IF Lower(nm) # nm THEN {Lower(nm)} ELSE {}
Breaks(v) == 0 .. Len(v)
SpellLine ==
  /\ k # 0 /\ j <= Len(Doc[k])
  /\ LET h == Doc[k][j] IN
     \E e \in {"crlf", "cr", "lf"}, nm \in {h.n} \cup OtherCase(h.n), w \in SUBSET Breaks(h.v) :
       LET cost == (IF e # eol THEN 1 ELSE 0) + (IF nm # h.n THEN 1 ELSE 0) + Cardinality(w)
           body == FlattenSeq([i \in 1 .. (Len(h.v) + 1) |-> (IF (i - 1) \in w THEN EolToks(e) \o <<"_">> ELSE <<>>) \o (IF i <= Len(h.v) THEN <<h.v[i]>> ELSE <<>>)]) IN
         /\ n + cost <= MaxEdits
         /\ n' = n + cost
         /\ t' = t \o <<nm, ":", "_">> \o body \o EolToks(e)
         /\ j' = j + 1
         /\ UNCHANGED <<k, todo, last, eol, twice, mixed>>
EndSection ==
  /\ k # 0 /\ j > Len(Doc[k])
  /\ \E e \in {"crlf", "cr", "lf"}, x \in 0 .. 2 :
       LET cost == (IF e # eol /\ x > 0 THEN 1 ELSE 0) + (IF x = 1 THEN 0 ELSE 1) IN
         /\ x = 0 => todo = {}
         /\ n + cost <= MaxEdits /\ n' = n + cost
         /\ t' = t \o FlattenSeq([i \in 1 .. x |-> EolToks(e)])
         /\ mixed' = (mixed \/ (Ends(t) /\ e = "lf"))
         /\ IF todo = {} THEN k' = 0 /\ UNCHANGED todo
            ELSE \E m \in todo : /\ (m # Min(todo) => n' < MaxEdits)
                                 /\ k' = m /\ todo' = todo \ {m}
         /\ j' = 1 /\ UNCHANGED <<last, eol, twice>>
Spelling == Mode = "spell" /\ (SpellLine \/ EndSection)

Del(x, p) == SubSeq(x, 1, p - 1) \o SubSeq(x, p + 1, Len(x))
Ins(x, p, y) == SubSeq(x, 1, p - 1) \o <<y>> \o SubSeq(x, p, Len(x))
Editing ==
  /\ Mode = "edit" /\ n < MaxEdits
  /\ n' = n + 1 /\ UNCHANGED <<k, j, todo, eol, twice, mixed>>
  /\ \E p \in (IF n = 0 THEN 1 .. (Len(t) + 1) ELSE last .. (IF last + 2 > Len(t) + 1 THEN Len(t) + 1 ELSE last + 2)) :
       /\ last' = p
       /\ \/ p <= Len(t) /\ t' = Del(t, p)
          \/ \E y \in (IF n = 0 THEN First ELSE Then) : t' = Ins(t, p, y)
          \/ \E y \in (IF n = 0 THEN First ELSE Then) : p <= Len(t) /\ t[p] # y /\ t' = [t EXCEPT ![p] = y]
          \/ n = 0 /\ t' = SubSeq(t, 1, p - 1) \* cut off

(* one more section, before another or last, of a name that is there already: a manifest may not have it, in a signature file it adds to the other *)
Starts == {p \in 1 .. Len(t) : t[p] = "Name"} \cup {Len(t) + 1}
Again(f) == {<<>>} \cup {<<H(a, v)>> : a \in {"D", "S"}, v \in {SecOf(f)[2].v, <<"x">>}}
Repeating ==
  /\ Mode = "edit" /\ n = 0 /\ n' = MaxEdits /\ twice' = TRUE
  /\ \E p \in Starts, f \in Range(Order) : \E at \in Again(f) :
       LET hs == <<H("Name", f)>> \o at
           sec == FlattenSeq([i \in DOMAIN hs |-> <<hs[i].n, ":", "_">> \o hs[i].v \o EolToks(eol)]) \o EolToks(eol) IN
         t' = SubSeq(t, 1, p - 1) \o sec \o SubSeq(t, p, Len(t))
  /\ UNCHANGED <<k, j, todo, last, eol, mixed>>

Init ==
  /\ twice = FALSE
  /\ eol \in Eols /\ n = 0 /\ last = 0 /\ mixed = FALSE
  /\ IF Mode = "spell" THEN t = <<>> /\ k = 1 /\ j = 1 /\ todo = 2 .. Len(Doc)
     ELSE t = Plain(eol) /\ k = 0 /\ j = 0 /\ todo = {}
Next == Spelling \/ Editing \/ Repeating
Spec == Init /\ [][Next]_vars

Done == k = 0
Accepts(r) == IF Which = "mf" THEN MfAccepts(r) ELSE SfAccepts(r)
Main(r) == {<<r.main[i].n, r.main[i].v>> : i \in DOMAIN r.main}
Means(r) ==
  /\ ~r.err
  /\ Main(r) = {<<<<Lower(MainOf[i].n)>>, MainOf[i].v>> : i \in DOMAIN MainOf}
  /\ SecNames(r.secs) = Files /\ Len(r.secs) = Cardinality(Files)
  /\ \A i \in DOMAIN r.secs : r.secs[i].at = <<H(<<"d">>, SecOf(r.secs[i].n)[2].v)>>
  /\ Accepts(r)
Spelled == Mode = "spell" /\ Done /\ ~mixed => Means(Read(t, Which = "mf"))
(* sections and what is between them cover the text *)
Covers == Done => LET r == Read(t, TRUE) IN ~r.err => \A i \in DOMAIN r.secs : r.secs[i].from = (IF i = 1 THEN r.mainEnd ELSE r.secs[i - 1].to) + 1 /\ r.secs[i].to >= r.secs[i].from
Emit == Done /\ (Sample > 1 /\ n = MaxEdits /\ ~twice => RandomElement(1 .. Sample) = 1) =>
  LET r == Read(t, Which = "mf") IN
    PrintT("@@" \o ToJson([which |-> Which, t |-> t, twice |-> twice, acc |-> Accepts(r), err |-> r.err, mainEnd |-> r.mainEnd, secs |-> [i \in DOMAIN r.secs |-> [n |-> r.secs[i].n, from |-> r.secs[i].from, to |-> r.secs[i].to]]]))
=============================================================================
