-------------------------------- MODULE Base --------------------------------
(* Generic helpers.  An optional value is a sequence of length 0 or 1.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
LOCAL SX == INSTANCE SequencesExt

Some(x) == <<x>>
Nil == <<>>
Has(o) == o # <<>>
The(o) == o[1]
Or(o, d) == IF o # <<>> THEN o[1] ELSE d             \* optional with default
First2(a, b) == IF a # <<>> THEN a ELSE b            \* first present option
First3(a, b, c) == First2(a, First2(b, c))

\* eager fold (overridden in Java)
Fold(Op(_, _), base, s) == SX!FoldLeft(Op, base, s)
Map(Op(_), s) == SX!FoldLeft(LAMBDA acc, x : Append(acc, Op(x)), <<>>, s)
SetToSeq(S) == SX!SetToSeq(S)
Flat(ss) == SX!FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
Filter(s, P(_)) == SX!FoldLeft(LAMBDA acc, x : IF P(x) THEN Append(acc, x) ELSE acc, <<>>, s)
Range(s) == {s[i] : i \in DOMAIN s}
SomeIn(s, P(_)) == \E i \in DOMAIN s : P(s[i])
AllIn(s, P(_)) == \A i \in DOMAIN s : P(s[i])
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

\* association lists <<key, value>>: lookup of the first entry
RECURSIVE AFind(_, _, _)
AFind(al, k, i) == IF i > Len(al) THEN 0 ELSE IF al[i][1] = k THEN i ELSE AFind(al, k, i + 1)
AHas(al, k) == AFind(al, k, 1) # 0
AGet(al, k) == LET i == AFind(al, k, 1) IN IF i = 0 THEN Nil ELSE Some(al[i][2])
APut(al, k, v) == LET i == AFind(al, k, 1)
                  IN IF i = 0 THEN Append(al, <<k, v>>) ELSE [al EXCEPT ![i] = <<k, v>>]
ADel(al, k) == LET i == AFind(al, k, 1) IN IF i = 0 THEN al ELSE RemoveAt(al, i)

\* strings
Blank == {" ", "\n", "\t"}
Chr(s, i) == SubSeq(s, i, i)
RECURSIVE LStrip(_), RStrip(_)
LStrip(s) == IF s = "" THEN s ELSE IF Chr(s, 1) \in Blank THEN LStrip(SubSeq(s, 2, Len(s))) ELSE s
RStrip(s) == IF s = "" THEN s ELSE IF Chr(s, Len(s)) \in Blank THEN RStrip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == RStrip(LStrip(s))
RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = c THEN i ELSE IndexOf(s, c, i + 1)
RECURSIVE SplitBy(_, _)
SplitBy(s, c) == LET i == IndexOf(s, c, 1)
                 IN IF i = 0 THEN <<s>>
                    ELSE <<SubSeq(s, 1, i - 1)>> \o SplitBy(SubSeq(s, i + 1, Len(s)), c)
IdxTok(i) == "#" \o ToString(i)                       \* location token of a 0-based index
=============================================================================
