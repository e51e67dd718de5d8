------------------------------ MODULE Lexical -------------------------------
(* The lexical forms of scalar values: what a value of each type is written  *)
(* as, and what is read from a text. A value is given by its structure       *)
(* (digits, exponents, calendar and clock numbers), a text by its characters.*)
(*                                                                           *)
(*   bool  [b]                     int   [neg, ds]                           *)
(*   dec   [neg, ds, exp]          float [neg, ds, p]: 0.d1d2d3... * 10^p    *)
(*   date  [y, m, d]               time  [h, mi, s, us, tz]                  *)
(*   dtm   both                    tdl   [neg, days, secs, us]               *)
(*   uuid  [hex]                   ip    [q]                                 *)
(*   text  [cs] (texts, bytes, paths, enumerations and literals of texts)    *)
(* tz: minutes east of Greenwich, NoTz where there is none                   *)
EXTENDS Integers, Sequences, FiniteSets

NoTz == 9999
Bad == <<>>                       \* not a value: a value that is read comes as <<value>>
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
HexL == Digits \o <<"a", "b", "c", "d", "e", "f">>
HexU == Digits \o <<"A", "B", "C", "D", "E", "F">>
Dig(d) == Digits[d + 1]
DigitChars == {Digits[i] : i \in 1..10}
IsDig(c) == c \in DigitChars
DigOf(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
Digs(ds) == [i \in DOMAIN ds |-> Dig(ds[i])]
Rep(c, n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> c]
RECURSIVE Nat2(_)
Nat2(n) == IF n < 10 THEN <<Dig(n)>> ELSE Nat2(n \div 10) \o <<Dig(n % 10)>>
Pad(n, w) == LET cs == Nat2(n) IN Rep("0", w - Len(cs)) \o cs
RECURSIVE NatOf(_)
NatOf(cs) == IF cs = <<>> THEN 0 ELSE 10 * NatOf(SubSeq(cs, 1, Len(cs) - 1)) + DigOf(cs[Len(cs)])
Sign(neg) == IF neg THEN <<"-">> ELSE <<>>
AllDigs(cs) == \A i \in DOMAIN cs : IsDig(cs[i])
Head1(cs) == IF cs = <<>> THEN "" ELSE cs[1]
Drop(cs, n) == SubSeq(cs, n + 1, Len(cs))
Take(cs, n) == SubSeq(cs, 1, IF n < Len(cs) THEN n ELSE Len(cs))
\* the position of the first of these characters, 0 if there is none
At(cs, set) == LET is == {i \in DOMAIN cs : cs[i] \in set} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j

-----------------------------------------------------------------------------
PBool(v) == IF v.b THEN <<"t", "r", "u", "e">> ELSE <<"f", "a", "l", "s", "e">>
PInt(v) == Sign(v.neg) \o Digs(v.ds)
\* digits with the point after the first n of them (n may be anything), no more zeros than needed
Point(ds, n, last) ==
  IF n <= 0 THEN <<"0", ".">> \o Rep("0", -n) \o Digs(ds)
  ELSE IF n >= Len(ds) THEN Digs(ds) \o Rep("0", n - Len(ds)) \o last
  ELSE Digs(Take(ds, n)) \o <<".">> \o Digs(Drop(ds, n))
PDec(v) ==
  LET left == v.exp + Len(v.ds)
      plain == v.exp <= 0 /\ left > -6
      e == left - 1
  IN Sign(v.neg) \o (IF plain THEN Point(v.ds, left, <<>>)
                     ELSE Point(v.ds, 1, <<>>) \o <<"E">> \o <<IF e < 0 THEN "-" ELSE "+">> \o Nat2(IF e < 0 THEN -e ELSE e))
Zero(ds) == ds = <<0>>
PFloat(v) ==
  LET e == v.p - 1 IN
  Sign(v.neg) \o (IF Zero(v.ds) THEN <<"0", ".", "0">>
                  ELSE IF v.p > -4 /\ v.p <= 16 THEN Point(v.ds, v.p, <<".", "0">>)
                  ELSE Point(v.ds, 1, <<>>) \o <<"e">> \o <<IF e < 0 THEN "-" ELSE "+">> \o Pad(IF e < 0 THEN -e ELSE e, 2))
PDate(v) == Pad(v.y, 4) \o <<"-">> \o Pad(v.m, 2) \o <<"-">> \o Pad(v.d, 2)
PTz(tz) == LET a == IF tz < 0 THEN -tz ELSE tz IN
           IF tz = NoTz THEN <<>> ELSE IF tz = 0 THEN <<"Z">> ELSE <<IF tz < 0 THEN "-" ELSE "+">> \o Pad(a \div 60, 2) \o <<":">> \o Pad(a % 60, 2)
PTime(v) == Pad(v.h, 2) \o <<":">> \o Pad(v.mi, 2) \o <<":">> \o Pad(v.s, 2) \o (IF v.us = 0 THEN <<>> ELSE <<".">> \o Pad(v.us, 6)) \o PTz(v.tz)
PDtm(v) == PDate(v) \o <<"T">> \o PTime(v)
RECURSIVE Strip0(_)
Strip0(cs) == IF cs # <<>> /\ cs[Len(cs)] = "0" THEN Strip0(Take(cs, Len(cs) - 1)) ELSE cs
Unit(n, u) == IF n = 0 THEN <<>> ELSE Nat2(n) \o <<u>>
\* a year is 365 days
PTdl(v) ==
  LET sec == v.secs % 60
      clock == Unit(v.secs \div 3600, "H") \o Unit((v.secs \div 60) % 60, "M")
               \o (IF sec = 0 /\ v.us = 0 THEN <<>> ELSE Nat2(sec) \o (IF v.us = 0 THEN <<>> ELSE <<".">> \o Strip0(Pad(v.us, 6))) \o <<"S">>)
      date == Unit(v.days \div 365, "Y") \o Unit(v.days % 365, "D")
  IN IF date = <<>> /\ clock = <<>> THEN <<"P", "T", "0", "S">>
     ELSE Sign(v.neg) \o <<"P">> \o date \o (IF clock = <<>> THEN <<>> ELSE <<"T">> \o clock)
Hex(h, al) == [i \in DOMAIN h |-> al[h[i] + 1]]
Dashes(cs) == Take(cs, 8) \o <<"-">> \o SubSeq(cs, 9, 12) \o <<"-">> \o SubSeq(cs, 13, 16) \o <<"-">> \o SubSeq(cs, 17, 20) \o <<"-">> \o Drop(cs, 20)
PUuid(v) == Dashes(Hex(v.hex, HexL))
PIp(v) == Nat2(v.q[1]) \o <<".">> \o Nat2(v.q[2]) \o <<".">> \o Nat2(v.q[3]) \o <<".">> \o Nat2(v.q[4])
PText(v) == v.cs

Print(ty, v) == CASE ty = "bool" -> PBool(v) [] ty = "int" -> PInt(v) [] ty = "dec" -> PDec(v) [] ty = "float" -> PFloat(v) [] ty = "date" -> PDate(v)
                  [] ty = "time" -> PTime(v) [] ty = "dtm" -> PDtm(v) [] ty = "tdl" -> PTdl(v) [] ty = "uuid" -> PUuid(v) [] ty = "ip" -> PIp(v)
                  [] OTHER -> PText(v)

-----------------------------------------------------------------------------
\* reading: the text is taken to pieces
RBool(cs) == IF cs \in {<<"t", "r", "u", "e">>, <<"1">>} THEN <<[b |-> TRUE]>> ELSE IF cs \in {<<"f", "a", "l", "s", "e">>, <<"0">>} THEN <<[b |-> FALSE]>> ELSE Bad
Neg(cs) == Head1(cs) = "-"
Unsigned(cs) == IF Head1(cs) \in {"-", "+"} THEN Drop(cs, 1) ELSE cs
RECURSIVE Lead0(_)
Lead0(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Lead0(Tail(ds)) ELSE ds
NumDs(cs) == [i \in DOMAIN cs |-> DigOf(cs[i])]
RInt(cs) == LET u == Unsigned(cs) IN
  IF u = <<>> \/ ~AllDigs(u) THEN Bad ELSE LET ds == Lead0(NumDs(u)) IN <<[neg |-> Neg(cs) /\ ds # <<0>>, ds |-> ds]>>
\* a number with point and exponent: digits and the exponent of the last of them
RNum(cs) ==
  LET u == Unsigned(cs)
      e == At(u, {"e", "E"})
      mant == IF e = 0 THEN u ELSE Take(u, e - 1)
      ex == IF e = 0 THEN <<"0">> ELSE Drop(u, e)
      p == At(mant, {"."})
      int == IF p = 0 THEN mant ELSE Take(mant, p - 1)
      frac == IF p = 0 THEN <<>> ELSE Drop(mant, p)
      n == NatOf(Unsigned(ex))
  IN IF ~AllDigs(int) \/ ~AllDigs(frac) \/ int \o frac = <<>> \/ ~AllDigs(Unsigned(ex)) \/ Unsigned(ex) = <<>> THEN Bad
     ELSE <<[neg |-> Neg(cs), ds |-> Lead0(NumDs(int \o frac)), exp |-> (IF Neg(ex) THEN -n ELSE n) - Len(frac)]>>
RDec(cs) == RNum(cs)
RECURSIVE Trim(_)
Trim(v) == IF Len(v.ds) > 1 /\ v.ds[Len(v.ds)] = 0 THEN Trim([v EXCEPT !.ds = Take(v.ds, Len(v.ds) - 1), !.exp = v.exp + 1]) ELSE v
RFloat(cs) == LET r == RNum(cs) IN IF r = Bad THEN Bad ELSE LET t == Trim(r[1]) IN
              <<[neg |-> t.neg, ds |-> t.ds, p |-> IF Zero(t.ds) THEN 0 ELSE t.exp + Len(t.ds)]>>
Part(cs, i, n) == SubSeq(cs, i, i + n - 1)
RDate(cs) == IF Len(cs) # 10 \/ cs[5] # "-" \/ cs[8] # "-" THEN Bad
             ELSE <<[y |-> NatOf(Part(cs, 1, 4)), m |-> NatOf(Part(cs, 6, 2)), d |-> NatOf(Part(cs, 9, 2))]>>
RTz(cs) == IF cs = <<>> THEN NoTz ELSE IF cs[1] = "Z" THEN 0
           ELSE LET a == NatOf(Part(cs, 2, 2)) * 60 + NatOf(Part(cs, 5, 2)) IN IF cs[1] = "-" THEN -a ELSE a
RTime(cs) ==
  LET z == At(cs, {"Z", "+", "-"})
      clock == IF z = 0 THEN cs ELSE Take(cs, z - 1)
      zone == IF z = 0 THEN <<>> ELSE Drop(cs, z - 1)
      frac == Drop(clock, 9)
  IN IF Len(clock) < 8 THEN Bad
     ELSE <<[h |-> NatOf(Part(cs, 1, 2)), mi |-> NatOf(Part(cs, 4, 2)), s |-> NatOf(Part(cs, 7, 2)), us |-> NatOf(frac \o Rep("0", 6 - Len(frac))), tz |-> RTz(zone)]>>
RDtm(cs) == LET d == RDate(Take(cs, 10))  t == RTime(Drop(cs, 11)) IN
  IF Len(cs) < 19 \/ cs[11] # "T" \/ d = Bad \/ t = Bad THEN Bad
  ELSE <<[y |-> d[1].y, m |-> d[1].m, d |-> d[1].d, h |-> t[1].h, mi |-> t[1].mi, s |-> t[1].s, us |-> t[1].us, tz |-> t[1].tz]>>
\* numbers each followed by its unit
RECURSIVE Units(_)
Units(cs) == IF cs = <<>> THEN <<>> ELSE LET i == At(cs, {"Y", "D", "H", "M", "S"}) IN <<<<Take(cs, i - 1), cs[i]>>>> \o Units(Drop(cs, i))
Of(us, u) == LET is == {i \in DOMAIN us : us[i][2] = u} IN IF is = {} THEN <<"0">> ELSE us[CHOOSE i \in is : TRUE][1]
RTdl(cs) ==
  LET u == Unsigned(cs)  b == Drop(u, 1)  t == At(b, {"T"})
      date == Units(IF t = 0 THEN b ELSE Take(b, t - 1))
      clock == Units(IF t = 0 THEN <<>> ELSE Drop(b, t))
      s == Of(clock, "S")  p == At(s, {"."})
      int == IF p = 0 THEN s ELSE Take(s, p - 1)
      frac == IF p = 0 THEN <<>> ELSE Drop(s, p)
  IN IF Head1(u) # "P" THEN Bad
     ELSE <<[neg |-> Neg(cs), days |-> NatOf(Of(date, "Y")) * 365 + NatOf(Of(date, "D")),
             secs |-> NatOf(Of(clock, "H")) * 3600 + NatOf(Of(clock, "M")) * 60 + NatOf(int), us |-> NatOf(frac \o Rep("0", 6 - Len(frac)))]>>
HexOf(c) == (CHOOSE i \in 1..16 : HexL[i] = c \/ HexU[i] = c) - 1
RUuid(cs) == LET u == SelectSeq(cs, LAMBDA c : c # "-") IN IF Len(u) # 32 THEN Bad ELSE <<[hex |-> [i \in 1..32 |-> HexOf(u[i])]]>>
RECURSIVE Split(_, _)
Split(cs, c) == LET i == At(cs, {c}) IN IF i = 0 THEN <<cs>> ELSE <<Take(cs, i - 1)>> \o Split(Drop(cs, i), c)
RIp(cs) == LET ps == Split(cs, ".") IN IF Len(ps) # 4 THEN Bad ELSE <<[q |-> [i \in 1..4 |-> NatOf(ps[i])]]>>
RText(cs) == <<[cs |-> cs]>>
Read(ty, cs) == CASE ty = "bool" -> RBool(cs) [] ty = "int" -> RInt(cs) [] ty = "dec" -> RDec(cs) [] ty = "float" -> RFloat(cs) [] ty = "date" -> RDate(cs)
                  [] ty = "time" -> RTime(cs) [] ty = "dtm" -> RDtm(cs) [] ty = "tdl" -> RTdl(cs) [] ty = "uuid" -> RUuid(cs) [] ty = "ip" -> RIp(cs)
                  [] OTHER -> RText(cs)

-----------------------------------------------------------------------------
\* other texts for the same value
Plus(neg, cs) == IF neg THEN {} ELSE {<<"+">> \o cs}
Forms(ty, v) ==
  LET cs == Print(ty, v) IN
  CASE ty = "bool" -> {<<IF v.b THEN "1" ELSE "0">>}
    [] ty = "int" -> Plus(v.neg, cs) \cup {Sign(v.neg) \o <<"0", "0">> \o Digs(v.ds)}
    [] ty = "float" -> Plus(v.neg, cs) \cup (IF Zero(v.ds) THEN {} ELSE
                         {Sign(v.neg) \o <<"0">> \o cs2 : cs2 \in {LET e == v.p IN <<".">> \o Digs(v.ds) \o <<"E">> \o (IF e < 0 THEN <<"-">> ELSE <<>>) \o Nat2(IF e < 0 THEN -e ELSE e)}})
    [] ty = "dec" -> Plus(v.neg, cs)
    [] ty \in {"time", "dtm"} /\ v.tz = 0 -> {Take(cs, Len(cs) - 1) \o <<"+", "0", "0", ":", "0", "0">>}
    [] ty \in {"time", "dtm"} /\ v.tz = NoTz /\ v.us # 0 -> {Strip0(cs)}
    [] ty = "uuid" -> {Dashes(Hex(v.hex, HexU)), Hex(v.hex, HexL)}
    [] OTHER -> {}

-----------------------------------------------------------------------------
\* where a value may stand, and the document then: a tree of [tag, attrs, text, kids], "$" for the text
El(tag, attrs, text, kids) == [tag |-> tag, attrs |-> attrs, text |-> text, kids |-> kids]
A(n) == <<<<n, "$">>>>
E0(tag) == El(tag, <<>>, "$", <<>>)
Root1(kids) == El("m", <<>>, "", kids)
Places == [
  attr |-> El("m", A("a"), "", <<>>), elem |-> Root1(<<E0("e")>>), text |-> E0("m"), opt |-> Root1(<<E0("e")>>), optattr |-> El("m", A("a"), "", <<>>),
  list |-> Root1(<<E0("e"), E0("e")>>), tuple |-> Root1(<<E0("e"), E0("e")>>), vartuple |-> Root1(<<E0("e"), E0("e")>>), named |-> Root1(<<E0("e"), E0("e")>>),
  map |-> El("m", <<<<"k", "$">>, <<"l", "$">>>>, "", <<>>), mapel |-> Root1(<<El("e", A("k"), "", <<>>)>>), maplist |-> Root1(<<El("e", A("k"), "", <<>>), El("e", A("l"), "", <<>>)>>),
  typed |-> Root1(<<El("e", A("k"), "", <<>>)>>),
  wrapattr |-> Root1(<<El("w", A("a"), "", <<>>)>>), wraptext |-> Root1(<<E0("w")>>), wrapel |-> Root1(<<El("w", <<>>, "", <<E0("e")>>)>>),
  wraplist |-> Root1(<<El("w", <<>>, "", <<E0("e"), E0("e")>>)>>),
  sub |-> Root1(<<El("s", A("a"), "$", <<E0("e")>>)>>), subs |-> Root1(<<El("s", A("a"), "", <<>>), El("s", A("a"), "", <<>>)>>),
  root |-> E0("m"), rootlist |-> Root1(<<E0("e"), E0("e")>>), nested |-> Root1(<<E0("s")>>), nillable |-> Root1(<<E0("e")>>),
  dflt |-> El("m", A("a"), "", <<>>), ns |-> El("{u}m", A("{u}a"), "", <<E0("{u}e")>>), inherited |-> El("m", A("a"), "", <<>>), union |-> Root1(<<E0("e")>>),
  model |-> Root1(<<El("s", A("a"), "", <<>>)>>)]
\* a place that is only written
Computed == [cattr |-> El("m", A("a"), "", <<>>), celem |-> Root1(<<E0("e")>>), ctext |-> E0("m"), clist |-> Root1(<<E0("e"), E0("e")>>)]
=============================================================================
