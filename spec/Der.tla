-------------------------------- MODULE Der --------------------------------
(***************************************************************************)
(* Decoding ASN.1 values into typed shapes (C30): the strict decoder (DER) *)
(* and the lenient one, which differ in four rules only.  On everything    *)
(* the strict one accepts both say the same (Agree).                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Json

CONSTANTS Family,  \* which shapes and inputs
          N,       \* length of contents, number of elements
          Mutant   \* "none", or a rule got wrong in the lenient decoder

(* --- shapes: what the value is to be decoded into --- *)
Sh0 == [k |-> "", e |-> "", f |-> "", opt |-> FALSE, def |-> <<>>, tag |-> -1, expl |-> FALSE, set |-> FALSE, cls |-> "ctx"]
Sh(k) == [Sh0 EXCEPT !.k = k]
ListOf(e) == [Sh0 EXCEPT !.k = "seqof", !.e = e]
Str(f) == [Sh0 EXCEPT !.k = "struct", !.f = f]
Opt(s) == [s EXCEPT !.opt = TRUE]
Tag(s, t) == [s EXCEPT !.tag = t]
Expl(s, t) == [s EXCEPT !.tag = t, !.expl = TRUE]
Dflt(s, d) == [s EXCEPT !.opt = TRUE, !.def = d]
SetSh(s) == [s EXCEPT !.set = TRUE]
Fields(f) ==
  CASE f = "A" -> <<Sh("int64"), Tag(Opt(Sh("octets")), 0), Dflt(Sh("int64"), <<5>>), Tag(Opt(Sh("raw")), 1)>>
    [] f = "B" -> <<Sh("oid"), Opt(Sh("raw"))>>
    [] f = "C" -> <<Expl(Dflt(Sh("int64"), <<>>), 0), Sh("big"), Opt(ListOf("int64"))>>
    [] f = "D" -> <<Sh("rawcontent"), Sh("oid"), Opt(Sh("bool")), Sh("octets")>>
    [] f = "E" -> <<Sh("time"), Opt(Sh("str")), Opt(Sh("any"))>>
    [] f = "F" -> <<SetSh(ListOf("int64")), Tag(Opt(Sh("bits")), 1), Opt(Sh("enum"))>>
    [] f = "G" -> <<Tag(Sh("octets"), 4), Sh("int64")>>
    [] f = "H" -> <<Opt(Str("G")), Expl(Opt(Sh("raw")), 0), Expl(Opt(Sh("flag")), 1), Opt(ListOf("oid"))>>
    [] f = "I" -> <<Tag(Opt(ListOf("int64")), 0), Tag(Opt(Str("B")), 1), Opt(ListOf("str"))>>
    [] f = "J" -> <<[Tag(Opt(Sh("octets")), 2) EXCEPT !.cls = "app"], [Tag(Opt(Sh("octets")), 2) EXCEPT !.cls = "priv"], Tag(Opt(Sh("time")), 0), Opt(Sh("int32"))>>
    [] f = "K" -> <<Dflt(Sh("int32"), <<7>>), Tag(Dflt(Sh("int64"), <<9>>), 0), Opt(Sh("time")), Opt(Sh("str"))>>

(* --- results: a value and where it ends, or an error --- *)
V(k, b, e) == [k |-> k, b |-> b, e |-> e]
Err == [ok |-> FALSE, v |-> V("", <<>>, <<>>), off |-> 0]
Ok(v, off) == [ok |-> TRUE, v |-> v, off |-> off]
Nil == V("nil", <<>>, <<>>)
Sub(b, off, n) == SubSeq(b, off + 1, off + n) \* offsets count from 0
At(b, off) == b[off + 1]

(* a number in base 128 *)
NoNum == [ok |-> FALSE, n |-> 0, off |-> 0]
Base128(b, off, lenient) ==
  LET ends == {i \in off .. Len(b) - 1 : At(b, i) < 128} IN
    IF ends = {} THEN NoNum
    ELSE LET z == Min(ends)
             n == z - off + 1
             d(i) == At(b, off + i) % 128 IN
      IF n > 5 \/ (~lenient /\ n > 1 /\ At(b, off) = 128) \/ (n = 5 /\ d(0) > 7) THEN NoNum
      ELSE [ok |-> TRUE, n |-> FoldLeft(LAMBDA a, i : a * 128 + d(i - 1), 0, [i \in 1 .. n |-> i]), off |-> z + 1]

(* tag and length *)
NoHd == [ok |-> FALSE, cls |-> 0, cons |-> FALSE, tag |-> 0, len |-> 0, off |-> 0]
Hd(b, off, lenient) ==
  IF off >= Len(b) THEN NoHd
  ELSE LET b0 == At(b, off)
           big == b0 % 32 = 31
           t == IF big THEN Base128(b, off + 1, lenient) ELSE [ok |-> TRUE, n |-> b0 % 32, off |-> off + 1]
           h(len, o) == [ok |-> TRUE, cls |-> b0 \div 64, cons |-> (b0 \div 32) % 2 = 1, tag |-> t.n, len |-> len, off |-> o] IN
    IF ~t.ok \/ (big /\ ~lenient /\ t.n < 31) \/ t.off >= Len(b) THEN NoHd
    ELSE LET l == At(b, t.off)
             n == l % 128 IN
      IF l < 128 THEN h(l, t.off + 1)
      ELSE IF n = 0 \/ t.off + 1 + n > Len(b) THEN NoHd
      ELSE LET pre == [i \in 0 .. n |-> IF i = 0 THEN 0 ELSE FoldLeft(LAMBDA a, j : IF a < 0 \/ a >= 8388608 THEN -1 ELSE a * 256 + At(b, t.off + j), 0, [j \in 1 .. i |-> j])] IN
        IF pre[n] < 0 THEN NoHd
        ELSE IF ~lenient /\ (pre[1] = 0 \/ pre[n] < 128) THEN NoHd
        ELSE IF lenient /\ Mutant = "long" /\ n > 1 THEN NoHd
        ELSE h(pre[n], t.off + 1 + n)

(* --- simple contents --- *)
MinInt(b) == ~(Len(b) > 1 /\ ((b[1] = 0 /\ b[2] < 128) \/ (b[1] = 255 /\ b[2] >= 128)))
IntV(b, max) == IF b = <<>> \/ ~MinInt(b) \/ Len(b) > max THEN Err ELSE Ok(V("int", b, <<>>), 0)
BoolV(b) == IF Len(b) = 1 /\ b[1] \in {0, 255} THEN Ok(V("bool", <<b[1] % 2>>, <<>>), 0) ELSE Err
Pow2(n) == 2 ^ n
BitsV(b) ==
  IF b = <<>> \/ b[1] > 7 \/ (Len(b) = 1 /\ b[1] > 0) \/ (Len(b) > 1 /\ b[Len(b)] % Pow2(b[1]) # 0) THEN Err
  ELSE Ok(V("bits", <<(Len(b) - 1) * 8 - b[1]>> \o Tail(b), <<>>), 0)
RECURSIVE Arcs(_, _, _)
Arcs(b, off, lenient) ==
  IF off = Len(b) THEN [ok |-> TRUE, a |-> <<>>]
  ELSE LET x == Base128(b, off, lenient) IN
    IF ~x.ok THEN [ok |-> FALSE, a |-> <<>>]
    ELSE LET r == Arcs(b, x.off, lenient) IN [ok |-> r.ok, a |-> <<x.n>> \o r.a]
OidV(b, lenient) ==
  LET r == Arcs(b, 0, lenient)
      h == r.a[1] IN
    IF b = <<>> \/ ~r.ok THEN Err
    ELSE Ok(V("oid", (IF h < 80 THEN <<h \div 40, h % 40>> ELSE <<2, h - 80>>) \o Tail(r.a), <<>>), 0)

(* --- strings, as UTF-8 --- *)
Latin1(b) == FlattenSeq([i \in DOMAIN b |-> IF b[i] < 128 THEN <<b[i]>> ELSE <<192 + b[i] \div 64, 128 + (b[i] % 64)>>])
IsDigit(c) == c \in 48 .. 57
Printable(c) == c \in 97 .. 122 \/ c \in 65 .. 90 \/ IsDigit(c) \/ c \in 39 .. 41 \/ c \in 43 .. 47 \/ c \in {32, 58, 61, 63, 42, 38}
RECURSIVE Utf8(_)
Cont(b, i) == i <= Len(b) /\ b[i] \in 128 .. 191
Utf8(b) == \* well formed, up to four bytes a character
  \/ b = <<>>
  \/ b[1] < 128 /\ Utf8(Tail(b))
  \/ b[1] \in 194 .. 223 /\ Cont(b, 2) /\ Utf8(SubSeq(b, 3, Len(b)))
  \/ b[1] \in 224 .. 239 /\ Cont(b, 2) /\ Cont(b, 3) /\ (b[1] = 224 => b[2] >= 160) /\ (b[1] = 237 => b[2] < 160) /\ Utf8(SubSeq(b, 4, Len(b)))
  \/ b[1] \in 240 .. 244 /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4) /\ (b[1] = 240 => b[2] >= 144) /\ (b[1] = 244 => b[2] < 144) /\ Utf8(SubSeq(b, 5, Len(b)))
Enc16(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>> ELSE <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Bmp(b) ==
  LET c == IF Len(b) >= 2 /\ b[Len(b)] = 0 /\ b[Len(b) - 1] = 0 THEN SubSeq(b, 1, Len(b) - 2) ELSE b
      p == [i \in 1 .. Len(c) \div 2 |-> c[2 * i - 1] * 256 + c[2 * i]] IN
    [ok |-> Len(b) % 2 = 0, odd |-> \E i \in DOMAIN p : p[i] \in {65534, 65535} \cup 64976 .. 65007 \cup 55296 .. 57343, s |-> FlattenSeq([i \in DOMAIN p |-> Enc16(p[i])])]
StrV(t, b, lenient) ==
  LET s(u) == Ok(V("str", u, <<>>), 0) IN
  CASE t = 19 -> IF lenient \/ \A i \in DOMAIN b : Printable(b[i]) THEN s(b) ELSE Err
    [] t = 18 -> IF \A i \in DOMAIN b : IsDigit(b[i]) \/ b[i] = 32 THEN s(b) ELSE Err
    [] t = 22 -> IF \A i \in DOMAIN b : b[i] < 128 THEN s(b) ELSE Err
    [] t \in {20, 27} -> IF Mutant = "t61" /\ lenient THEN s(b) ELSE s(Latin1(b))
    [] t = 12 -> IF Utf8(b) THEN s(b) ELSE Err
    [] t = 30 -> LET u == Bmp(b) IN IF ~u.ok \/ (u.odd /\ ~lenient) THEN Err ELSE IF u.odd THEN Ok(V("unspecified", <<>>, <<>>), 0) ELSE s(u.s)
    [] OTHER -> Err

(* --- times --- *)
Num(b, i, n) == FoldLeft(LAMBDA a, j : a * 10 + b[i + j - 1] - 48, 0, [j \in 1 .. n |-> j])
Digits(b, i, n) == i + n - 1 <= Len(b) /\ \A j \in i .. i + n - 1 : IsDigit(b[j])
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
(* from the month on; secs: whether there are seconds; the zone at the end *)
Rest(b, i, y, secs, fracs) ==
  LET n == IF secs THEN 10 ELSE 8
      z0 == i + n
      fr == IF fracs /\ z0 <= Len(b) /\ b[z0] = 46 THEN Max({0} \cup {k \in 1 .. Len(b) - z0 : Digits(b, z0 + 1, k)}) ELSE 0
      z == IF fr > 0 THEN z0 + fr + 1 ELSE z0
      zone == SubSeq(b, z, Len(b))
      utc == zone = <<90>>
      off == Len(zone) = 5 /\ zone[1] \in {43, 45} /\ Digits(zone, 2, 4) /\ Num(zone, 2, 2) <= 23 /\ Num(zone, 4, 2) <= 59 /\ ~(Num(zone, 2, 4) = 0)
      mo == Num(b, i, 2)  d == Num(b, i + 2, 2)  h == Num(b, i + 4, 2)  mi == Num(b, i + 6, 2)  s == IF secs THEN Num(b, i + 8, 2) ELSE 0 IN
    IF ~Digits(b, i, n) \/ ~(utc \/ off) \/ mo \notin 1 .. 12 \/ d \notin 1 .. Days(y, mo) \/ h > 23 \/ mi > 59 \/ s > 59 \/ fr > 9 \/ (fr > 0 /\ b[z0 + fr] = 48) THEN Err
    ELSE Ok(V("time", <<y, mo, d, h, mi, s, IF fr = 0 THEN 0 ELSE Num(b, z0 + 1, fr) * 10 ^ (9 - fr), IF utc THEN 0 ELSE (IF zone[1] = 43 THEN 1 ELSE -1) * (Num(zone, 2, 2) * 60 + Num(zone, 4, 2))>>, <<>>), 0)
Year2(b) == LET y == Num(b, 1, 2) IN IF y >= 69 THEN 1900 + y ELSE 2000 + y
Cent(r) == IF r.ok /\ r.v.b[1] >= 2050 THEN [r EXCEPT !.v.b[1] = @ - 100] ELSE r
UtcV(b) ==
  IF ~Digits(b, 1, 2) THEN Err
  ELSE LET r == Rest(b, 3, Year2(b), FALSE, FALSE) IN IF r.ok THEN Cent(r) ELSE Cent(Rest(b, 3, Year2(b), TRUE, FALSE))
GenV(b, lenient) == IF ~Digits(b, 1, 4) THEN Err ELSE Rest(b, 5, Num(b, 1, 4), TRUE, ~lenient \/ Mutant # "fraction")

(* --- the decoder --- *)
Strings == {12, 18, 19, 20, 22, 27, 30}
UniTag(s) == CASE s.k = "oid" -> 6 [] s.k = "bits" -> 3 [] s.k = "time" -> 23 [] s.k = "enum" -> 10 [] s.k \in {"big", "int32", "int64"} -> 2 [] s.k \in {"bool", "flag"} -> 1
                [] s.k \in {"struct", "seqof"} -> 16 [] s.k = "octets" -> 4 [] s.k = "str" -> 19 [] OTHER -> -1
Compound(s) == s.k \in {"struct", "seqof"}
Absent(s, off) == Ok(IF s.def = <<>> THEN Nil ELSE V("int", s.def, <<>>), off)
Missing(s, off) == IF s.opt THEN Absent(s, off) ELSE Err
AnyV(h, b, lenient) ==
  IF h.cons \/ h.cls # 0 THEN Ok(Nil, 0)
  ELSE CASE h.tag \in Strings \ {27} -> StrV(h.tag, b, lenient) [] h.tag = 2 -> IntV(b, 8) [] h.tag = 3 -> BitsV(b) [] h.tag = 6 -> OidV(b, lenient)
         [] h.tag = 23 -> UtcV(b) [] h.tag = 24 -> GenV(b, lenient) [] h.tag = 4 -> Ok(V("octets", b, <<>>), 0)
         [] h.tag = 1 /\ ~(lenient /\ Mutant = "anybool") -> BoolV(b) [] OTHER -> Ok(Nil, 0)

RECURSIVE Field(_, _, _, _), Inner(_, _, _, _, _), Elems(_, _, _, _), Parts(_, _, _, _)
Field(s, b, off0, lenient) ==
  IF off0 = Len(b) THEN Missing(s, off0)
  ELSE IF s.k = "any" THEN
    LET h == Hd(b, off0, lenient) IN
      IF ~h.ok \/ h.len > Len(b) - h.off THEN Err
      ELSE LET r == AnyV(h, Sub(b, h.off, h.len), lenient) IN IF r.ok THEN Ok(r.v, h.off + h.len) ELSE Err
  ELSE LET h1 == Hd(b, off0, lenient) IN
    IF ~h1.ok THEN Err
    ELSE IF ~s.expl THEN Inner(s, b, off0, h1, lenient)
    ELSE IF h1.off = Len(b) THEN Err
    ELSE IF ~(h1.cls = 2 /\ h1.tag = s.tag /\ (h1.len = 0 \/ h1.cons)) THEN Missing(s, off0)
    ELSE IF s.k = "raw" THEN Inner(s, b, off0, h1, lenient)
    ELSE IF h1.len = 0 THEN IF s.k = "flag" THEN Ok(V("bool", <<1>>, <<>>), h1.off) ELSE Err
    ELSE LET h2 == Hd(b, h1.off, lenient) IN IF h2.ok THEN Inner(s, b, off0, h2, lenient) ELSE Err

Inner(s, b, off0, h, lenient) ==
  LET any == s.k = "raw"
      t0 == IF s.k = "str" /\ h.cls = 0 /\ h.tag \in Strings THEN h.tag
            ELSE IF s.k = "time" /\ h.cls = 0 /\ h.tag = 24 THEN 24 ELSE UniTag(s)
      t1 == IF s.set THEN 17 ELSE t0
      implicit == ~s.expl /\ s.tag >= 0
      cls == IF ~implicit THEN 0 ELSE CASE s.cls = "ctx" -> 2 [] s.cls = "app" -> 1 [] OTHER -> 3
      tag == IF implicit THEN s.tag ELSE t1
      match == ((any /\ ~implicit) \/ (h.cls = cls /\ h.tag = tag)) /\ (any \/ h.cons = Compound(s))
      body == Sub(b, h.off, h.len)
      end == h.off + h.len
      at(r) == IF r.ok THEN Ok(r.v, end) ELSE Err IN
    IF ~match THEN Missing(s, off0)
    ELSE IF h.len > Len(b) - h.off THEN Err
    ELSE CASE s.k = "raw" -> Ok(V("raw", <<h.cls, h.tag, IF h.cons THEN 1 ELSE 0, h.len>> \o body \o Sub(b, off0, end - off0), <<>>), end)
           [] s.k = "oid" -> at(OidV(body, lenient))
           [] s.k = "bits" -> at(BitsV(body))
           [] s.k = "time" -> at(IF t1 = 24 THEN GenV(body, lenient) ELSE UtcV(body))
           [] s.k \in {"enum", "int32"} -> at(IntV(body, 4))
           [] s.k = "int64" -> at(IntV(body, 8))
           [] s.k = "big" -> at(IntV(body, 1000))
           [] s.k = "flag" -> Ok(V("bool", <<1>>, <<>>), end)
           [] s.k = "bool" -> at(BoolV(body))
           [] s.k = "octets" -> Ok(V("octets", body, <<>>), end)
           [] s.k = "str" -> at(StrV(t1, body, lenient))
           [] s.k = "seqof" -> LET r == Elems(s, body, 0, lenient) IN IF r.ok THEN Ok(V("seq", <<>>, r.e), end) ELSE Err
           [] s.k = "struct" ->
                LET fs == Fields(s.f)
                    raw == fs[1].k = "rawcontent"
                    r == Parts(IF raw THEN Tail(fs) ELSE fs, body, 0, lenient) IN
                  IF r.ok THEN Ok(V("struct", IF raw THEN Sub(b, off0, end - off0) ELSE <<>>, r.e), end) ELSE Err

Parts(fs, b, off, lenient) ==
  IF fs = <<>> THEN [ok |-> TRUE, e |-> <<>>]
  ELSE LET r == Field(fs[1], b, off, lenient) IN
    IF ~r.ok THEN [ok |-> FALSE, e |-> <<>>]
    ELSE LET q == Parts(Tail(fs), b, r.off, lenient) IN [ok |-> q.ok, e |-> <<r.v>> \o q.e]

ElemSh(s) == IF s.e \in {"B"} THEN Str(s.e) ELSE Sh(s.e)
Elems(s, b, off, lenient) == \* every element is of the type, and is well formed
  IF off = Len(b) THEN [ok |-> TRUE, e |-> <<>>]
  ELSE LET es == ElemSh(s)
           h == Hd(b, off, lenient)
           t == IF h.tag \in Strings THEN 19 ELSE IF h.tag = 24 THEN 23 ELSE h.tag IN
    IF ~h.ok \/ (es.k # "raw" /\ (h.cls # 0 \/ h.cons # Compound(es) \/ t # UniTag(es))) \/ h.len > Len(b) - h.off THEN [ok |-> FALSE, e |-> <<>>]
    ELSE LET r == Field(es, b, off, lenient) IN
      IF ~r.ok THEN [ok |-> FALSE, e |-> <<>>]
      ELSE LET q == Elems(s, b, h.off + h.len, lenient) IN [ok |-> q.ok, e |-> <<r.v>> \o q.e]

Decode(s, b, lenient) == IF b = <<>> /\ ~s.opt THEN Err ELSE Field(s, b, 0, lenient)

(* --- inputs --- *)
BLen(n) == IF n < 128 THEN <<n>> ELSE IF n < 256 THEN <<129, n>> ELSE <<130, n \div 256, n % 256>>
TLV(t, b) == <<t>> \o BLen(Len(b)) \o b
Words(al, n) == UNION {[1 .. k -> al] : k \in 0 .. n}
Chars(s) == [i \in DOMAIN s |-> s[i]]
IntAl == {0, 1, 127, 128, 255}
OidAl == {0, 1, 39, 40, 79, 80, 127, 128, 129, 135, 136, 255}
StrAl == {0, 32, 38, 42, 49, 64, 65, 127, 128, 169, 195, 216, 224, 237, 240, 255}
D2(n) == <<48 + n \div 10, 48 + (n % 10)>>
Times == \* two-digit parts around their ends, zones, lengths
  {[y |-> y, mo |-> mo, d |-> d, h |-> h, mi |-> 59, s |-> s, z |-> z] :
     y \in {0, 20, 23, 49, 50, 68, 69, 99}, mo \in {0, 1, 2, 11, 12, 13}, d \in {0, 1, 28, 29, 30, 31, 32}, h \in {0, 23, 24}, s \in {-1, 0, 59, 60},
     z \in {"Z"}} \cup
  {[y |-> y, mo |-> 2, d |-> 3, h |-> 4, mi |-> mi, s |-> s, z |-> z] : y \in {20, 75}, mi \in {0, 60}, s \in {-1, 7},
     z \in {"Z", "", "+0100", "-0830", "+0000", "+2359", "+0160", "z", "+01", "ZZ", "+01:00", ".5Z", ".50Z", ".123456789Z", ".Z", ".5", ".05+0100", "-0000"}}
ZoneBytes == [x \in {"Z", "", "+0100", "-0830", "+0000", "+2359", "+0160", "z", "+01", "ZZ", "+01:00", ".5Z", ".50Z", ".123456789Z", ".Z", ".5", ".05+0100", "-0000"} |->
  CASE x = "Z" -> <<90>> [] x = "" -> <<>> [] x = "+0100" -> <<43, 48, 49, 48, 48>> [] x = "-0830" -> <<45, 48, 56, 51, 48>> [] x = "+0000" -> <<43, 48, 48, 48, 48>>
    [] x = "+2359" -> <<43, 50, 51, 53, 57>> [] x = "+0160" -> <<43, 48, 49, 54, 48>> [] x = "z" -> <<122>> [] x = "+01" -> <<43, 48, 49>> [] x = "ZZ" -> <<90, 90>>
    [] x = "+01:00" -> <<43, 48, 49, 58, 48, 48>> [] x = ".5Z" -> <<46, 53, 90>> [] x = ".50Z" -> <<46, 53, 48, 90>>
    [] x = ".123456789Z" -> <<46, 49, 50, 51, 52, 53, 54, 55, 56, 57, 90>> [] x = ".Z" -> <<46, 90>> [] x = ".5" -> <<46, 53>> [] x = ".05+0100" -> <<46, 48, 53, 43, 48, 49, 48, 48>>
    [] x = "-0000" -> <<45, 48, 48, 48, 48>>]
TimeBytes(t, cent) == (IF cent THEN D2(IF t.y < 50 THEN 20 ELSE 19) ELSE <<>>) \o D2(t.y) \o D2(t.mo) \o D2(t.d) \o D2(t.h) \o D2(t.mi) \o (IF t.s < 0 THEN <<>> ELSE D2(t.s)) \o ZoneBytes[t.z]
Elements == \* parts of structures
  {<<2, 1, 5>>, <<2, 1, 0>>, <<2, 2, 0, 5>>, <<128, 1, 7>>, <<160, 3, 2, 1, 1>>, <<160, 0>>, <<1, 1, 255>>, <<1, 1, 1>>, <<4, 1, 9>>, <<4, 129, 1, 9>>, <<6, 1, 42>>, <<48, 3, 2, 1, 6>>,
   <<48, 4, 132, 0, 2, 1>>, <<48, 3, 6, 1, 42>>, <<49, 6, 2, 1, 3, 2, 1, 2>>, <<19, 1, 65>>, <<19, 1, 64>>, <<12, 1, 66>>, <<5, 0>>, <<129, 2, 0, 3>>, <<161, 0>>, <<161, 3, 6, 1, 42>>, <<10, 1, 2>>,
   <<66, 1, 3>>, <<194, 1, 4>>, <<48, 128, 0, 0>>, <<2, 5, 1>>, TLV(23, <<50, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90>>), TLV(128, <<50, 48, 48, 49, 48, 49, 48, 48, 48, 48, 48, 48, 90>>), <<31, 129, 0, 1, 5>>, <<132, 1, 8>>, <<4, 0>>}
HeadTags(t) == \* ways to write a tag
  {<<t>>, <<31 + 32 * (t \div 32), t % 32>>, <<31 + 32 * (t \div 32), 128, t % 32>>, <<31 + 32 * (t \div 32), 129, t % 32>>, <<31 + 32 * (t \div 32)>>, <<t + 32>>, <<(t + 64) % 256>>}
HeadLens(n) == \* ways to write a length, right and wrong
  {<<n>>, <<129, n>>, <<130, 0, n>>, <<131, 0, 0, n>>, <<132, 0, 0, 0, n>>, <<133, 0, 0, 0, 0, n>>, <<n + 1>>, <<n - 1>>, <<128>>, <<129>>, <<130, n>>, <<132, 127, 255, 255, 255>>,
   <<132, 255, 255, 255, 255>>, <<131, 1, 0, 0>>, <<255>>, <<>>}
HeadShapes == {<<Sh("int64"), 2, <<5>>>>, <<Sh("octets"), 4, <<1, 2, 3>>>>, <<Sh("raw"), 4, <<1, 2>>>>, <<Sh("any"), 4, <<1, 2>>>>, <<Sh("str"), 19, <<65, 66>>>>, <<Str("G"), 48, <<132, 0, 2, 1, 7>>>>, <<ListOf("int64"), 48, <<2, 1, 1, 2, 1, 2>>>>,
               <<Tag(Sh("octets"), 0), 128, <<1>>>>, <<Expl(Sh("int64"), 0), 160, <<2, 1, 1>>>>, <<Expl(Sh("raw"), 3), 163, <<2, 1, 1>>>>, <<Opt(Sh("octets")), 4, <<1, 2, 3>>>>, <<Sh("oid"), 6, <<42, 3>>>>,
               <<Sh("octets"), 4, [i \in 1 .. 127 |-> i]>>, <<Sh("octets"), 4, [i \in 1 .. 128 |-> i]>>, <<Sh("raw"), 48, [i \in 1 .. 130 |-> 0]>>}

(* what the contents are made of *)
Alphabet(al) ==
  CASE al = "int" -> IntAl [] al = "bool" -> {0, 1, 254, 255} [] al = "bits" -> {0, 1, 3, 7, 8, 128, 248, 255} [] al = "ends" -> {0, 255}
    [] al = "oid" -> OidAl [] al = "arc" -> {127, 128, 129, 135, 136, 255} [] al = "str" -> StrAl [] al = "bmp" -> {0, 65, 216, 220, 253, 208, 239, 254, 255}
    [] al = "utf8" -> {240, 244, 143, 144, 191, 237, 128, 160} [] al \in {"elements"} -> Elements [] al = "fill" -> {0, 1, 127, 128, 255}
P(ss, t, al, ns) == {[sh |-> s, t |-> t, al |-> al, n |-> n, pre |-> <<>>] : s \in ss, n \in ns}
Starts ==
  CASE Family = "int" -> P({Sh("int32"), Sh("int64"), Sh("big"), Sh("any")}, 2, "int", 0 .. N) \cup P({Sh("enum")}, 10, "int", 0 .. N)
                         \cup P({Sh("int32"), Sh("int64"), Sh("big"), Sh("any")}, 2, "fill", 4 .. 10) \cup P({Sh("bool"), Sh("any"), Sh("flag")}, 1, "bool", 0 .. 2)
    [] Family = "bits" -> P({Sh("bits"), Sh("any")}, 3, "bits", 0 .. N) \cup P({Sh("octets"), Sh("any"), Sh("raw")}, 4, "ends", 0 .. 3)
    [] Family = "oid" -> P({Sh("oid"), Sh("any")}, 6, "oid", 0 .. N)
                         \cup {[x EXCEPT !.pre = <<42>>] : x \in P({Sh("oid")}, 6, "arc", {5})} \cup {[x EXCEPT !.pre = <<42, 128, 128, 128, 128>>] : x \in P({Sh("oid")}, 6, "arc", 0 .. 2)}
    [] Family = "str" -> UNION {P({Sh("str"), Sh("any")}, t, "str", 0 .. N) : t \in Strings \cup {28}} \cup P({Sh("str")}, 30, "bmp", {4}) \cup P({Sh("str")}, 12, "utf8", {4})
    [] Family = "time" -> UNION {P({Sh("time"), Sh("any")}, t, "time", {0}) : t \in {23, 24}} \cup P({Tag(Sh("time"), 0)}, 128, "time", {0}) \cup P({Tag(Sh("time"), 0)}, 128, "gentime", {0})
    [] Family = "head" -> {[sh |-> h[1], t |-> h[2], al |-> "head", n |-> 0, pre |-> h[3]] : h \in HeadShapes}
    [] Family = "seq" -> P({ListOf("int64"), ListOf("oid"), ListOf("str"), ListOf("raw"), ListOf("octets"), ListOf("B"), ListOf("time"), SetSh(ListOf("int64"))}, 48, "elements", 0 .. N)
                         \cup P({SetSh(ListOf("int64")), ListOf("int64"), Sh("raw"), Sh("any")}, 49, "elements", 0 .. N)
    [] Family = "struct" -> P({Str(f) : f \in {"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K"}}, 48, "elements", 0 .. N)

VARIABLES sh, in, part
Init == part \in Starts /\ sh = part.sh /\ in = <<>>
Fill ==
  /\ part.n >= 0
  /\ \/ part.al = "time" /\ \E t \in Times : in' = TLV(part.t, TimeBytes(t, part.t = 24))
     \/ part.al = "gentime" /\ \E t \in {u \in Times : u.mo = 2} : in' = TLV(part.t, TimeBytes(t, TRUE))
     \/ part.al = "head" /\ \E t \in HeadTags(part.t), l \in HeadLens(Len(part.pre)) : in' = t \o l \o part.pre
     \/ part.al = "elements" /\ \E w \in [1 .. part.n -> Elements] : in' = TLV(part.t, FlattenSeq(w))
     \/ part.al = "fill" /\ \E x \in Alphabet("fill") : in' = TLV(part.t, [i \in 1 .. part.n |-> IF i = 1 THEN x ELSE 170])
     \/ part.al \notin {"time", "gentime", "head", "elements", "fill"} /\ \E w \in [1 .. part.n -> Alphabet(part.al)] : in' = TLV(part.t, part.pre \o w)
  /\ part' = [part EXCEPT !.n = -1, !.pre = <<>>, !.t = 0, !.al = ""]
  /\ UNCHANGED sh
Next == Fill
Spec == Init /\ [][Next]_<<sh, in, part>>

Agree == LET s == Decode(sh, in, FALSE) IN s.ok => Decode(sh, in, TRUE) = s
Emit == part.n < 0 => PrintT("@@" \o ToJson([sh |-> sh, in |-> in, strict |-> Decode(sh, in, FALSE), lenient |-> Decode(sh, in, TRUE)]))
=============================================================================
