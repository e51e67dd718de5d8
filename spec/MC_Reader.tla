----------------------------- MODULE MC_Reader -----------------------------
(* The reader of custom decoding functions as a state machine: any sequence  *)
(* of its operations, in any search mode, on its own sub-elements, on        *)
(* snapshots thrown away or put back, over every small document; every text  *)
(* and attribute in it is different.  The laws say what an operation may     *)
(* give, what it takes from the document and what is left for the others.    *)
EXTENDS MCBase

Op(op, a, mode) == [op |-> op, a |-> a, mode |-> mode, sub |-> <<>>]
In(op, a, mode, sub) == [op |-> op, a |-> a, mode |-> mode, sub |-> sub]
ST == "strict"
OR == "ordered"
UN == "unordered"
Simple == {Op("text", "", ST), Op("tail", "", ST), Op("attr", "n", ST), Op("get", "n", ST), Op("attrs", "", ST), Op("elems", "", ST), Op("native", "", ST)}
          \cup {Op(op, a, m) : op \in {"pop", "find", "peek"}, a \in {"a", "w"}, m \in {ST, OR, UN}}
          \cup {Op(op, "a", m) : op \in {"raw", "step"}, m \in {ST, OR, UN}}
          \cup {Op("path", p, m) : p \in {"w/a", "w/w"}, m \in {ST, OR, UN}}
Inner == {<<Op("pop", "a", OR)>>, <<Op("text", "", ST), Op("pop", "w", UN)>>, <<Op("attrs", "", ST), Op("elems", "", ST)>>,
          <<Op("path", "w/a", OR), Op("tail", "", ST)>>, <<Op("raw", "a", UN), Op("find", "a", ST)>>, <<Op("attr", "n", ST), In("sub", "w", OR, <<Op("pop", "a", OR)>>)>>}
Nested == {In("sub", "w", m, s) : m \in {ST, OR, UN}, s \in Inner} \cup {In(k, "", ST, s) : k \in {"snap", "swap"}, s \in Inner}
Ops == Simple \cup Nested
Steps == IF Deep THEN 3 ELSE 2

\* every forest of n elements: w inside, a or w at the leaves
RECURSIVE Forests(_)
Forests(n) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<[t |-> t, k |-> k]>> \o rest : t \in (IF i = 0 THEN {"a", "w"} ELSE {"w"}), k \in Forests(i), rest \in Forests(n - 1 - i)}
              : i \in 0 .. n - 1}
RECURSIVE Label(_, _)
Label(f, k) ==          \* texts t1, t2.., text after the second, attributes u3, ..
  IF f = <<>> THEN [ns |-> <<>>, k |-> k]
  ELSE LET h == Head(f)
           in == Label(h.k, k + 1)
           rest == Label(Tail(f), in.k)
       IN [ns |-> <<[Node(h.t, "t" \o ToString(k), in.ns) EXCEPT !.attrs = IF k # 2 THEN <<<<"n", "u" \o ToString(k)>>>> ELSE <<>>,
                                                                 !.tail = IF k = 2 THEN "l2" ELSE ""]>> \o rest.ns, k |-> rest.k]
DocF(f) == [Node("M", "t0", Label(f, 1).ns) EXCEPT !.attrs = <<<<"n", "u0">>, <<"m", "u9">>>>]
RECURSIVE DNum(_)
DNum(f) == Fold(LAMBDA a, n : (a * 31 + Tag2Num(n.t) + 7 * DNum(n.k)) % 100003, 5, f)
\* all the small ones, and a part of those of three elements; two operations on each (three, on fewer documents, when thorough)
Slice(k) == {x \in UNION {Forests(n) : n \in 0 .. 3} : DNum(x) % k = Seed % k}
AllForests == IF Deep THEN Slice(9) ELSE UNION {Forests(n) : n \in 0 .. 2} \cup Slice(5)

VARIABLES f, ops, prev, el, r
vars == <<f, ops, prev, el, r>>
Init0 == f \in AllForests /\ ops = <<>> /\ prev = Init(DocF(f)) /\ el = Init(DocF(f)) /\ r = ""
\* the class a case is put to the code with: the reader, then a list that takes what is left
Hooked(x, mode, steps) ==
  [Cls0("M") EXCEPT !.extra = <<x>>, !.mode = <<mode>>,
     !.fields = <<WithNone([Fld0("h", OptT(StrT)) EXCEPT !.ent = <<Elem("h")>>]),
                  WithNone([Fld0("al", OptT(ListT(StrT))) EXCEPT !.ent = <<Elem("a")>>])>>,
     !.vhooks = <<<<"h", [steps |-> steps, ret |-> ""]>>>>]
ModeNo(m) == CASE m = ST -> 1 [] m = OR -> 2 [] OTHER -> 3
Len1(s) == Len(s.op) + 3 * Len(s.a) + 5 * ModeNo(s.mode) + 11 * Len(s.sub)
Num == DNum(f) + Fold(LAMBDA a, s : a * 37 + Len1(s), 0, ops)
ModeOf(n) == <<ST, OR, UN>>[1 + (n % 3)]
Next == /\ Len(ops) < Steps
        /\ \E s \in Ops :
             LET q == Step(el, s) IN
             /\ ops' = Append(ops, s) /\ prev' = el /\ el' = q.el /\ r' = q.r /\ f' = f
             /\ LET n == Num * 41 + Len1(s)
                IN IF Len(ops') = Steps /\ Turn(n)
                   THEN Export(<<Hooked(IF n % 2 = 0 THEN "forbid" ELSE "ignore", ModeOf(n), ops' \o <<Op("unbound", "", ST), Op("empty", "", ST)>>)>>,
                               <<ParseEv("o", "M", DocF(f))>>)
                   ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Some0 == ops # <<>>
Last == ops[Len(ops)]
Is(K) == Some0 /\ Last.op \in K
RECURSIVE Vals(_)
Vals(e) == ({e.text, e.tail} \ {""}) \cup {a[2] : a \in Range(e.attrs)} \cup UNION {Vals(e.kids[i]) : i \in DOMAIN e.kids}
Left(e) == {u.v : u \in Range(Unbound(e))}
\* nothing appears, nothing is duplicated
NoNew == Some0 => Left(el) \subseteq Left(prev)
NoDouble == Len(Unbound(el)) = Cardinality(Left(el)) /\ Left(el) = Vals(el)
\* an operation that gives one value takes just that one; it was there, and nowhere afterwards
Gives == Is({"text", "tail", "attr", "pop", "find"}) =>
  IF r \in {"-", "!"} THEN Left(el) = Left(prev) ELSE r \in Left(prev) /\ Left(el) = Left(prev) \ {r}
\* looking takes nothing
Looks == Is({"peek", "get", "step", "path", "native", "snap"}) => Left(el) = Left(prev)
\* looking leaves the element as it was, down to the position
Peeks == Is({"peek", "get", "native", "snap"}) /\ (Last.op # "peek" \/ Last.mode # UN) => el = prev
Bulk == Is({"attrs", "elems"}) =>
  Left(el) = Left(prev) \ (IF Last.op = "attrs" THEN {a[2] : a \in Range(prev.attrs)} ELSE UNION {Vals(prev.kids[i]) : i \in DOMAIN prev.kids})
\* a raw element is taken whole, and only it
Whole == Is({"raw"}) =>
  IF r = "!" THEN el = prev
  ELSE \E i \in DOMAIN prev.kids : prev.kids[i].tag = Last.a /\ prev.kids[i].text = (IF r = "-" THEN "" ELSE r)
                                   /\ Left(el) = Left(prev) \ Vals(prev.kids[i])
\* the sub-elements are the same ones; only an unordered search exchanges any, two at a time
Kin == Some0 /\ Last.op \notin {"elems", "swap"} =>
  /\ Len(el.kids) = Len(prev.kids)
  /\ SameBag(Map(LAMBDA k : k.tag, el.kids), Map(LAMBDA k : k.tag, prev.kids))
  /\ Last.mode # UN => Map(LAMBDA k : k.tag, el.kids) = Map(LAMBDA k : k.tag, prev.kids)
\* the position only moves forward, and only a search that succeeds moves it
Forward == Some0 /\ Last.op \notin {"elems", "swap"} =>
  /\ el.idx >= prev.idx
  /\ (r = "!" \/ r = "0") => el = prev
  /\ Last.op \in {"pop", "raw", "sub", "step"} /\ r # "!" => el.idx > prev.idx
  /\ Last.op \in {"text", "tail", "attr", "get", "attrs", "peek", "native"} => el.idx = prev.idx
\* where a search may find: strictly the next element, or any later one; find and path also the one passed last
Where == Is({"pop", "find", "peek", "raw", "sub"}) =>
  LET next == {i \in prev.idx + 1 .. Len(prev.kids) : prev.kids[i].tag = Last.a}
      behind == Last.op = "find" /\ prev.idx > 0 /\ prev.kids[prev.idx].tag = Last.a
  IN (r # "!") = (behind \/ IF Last.mode = ST THEN prev.idx + 1 \in next ELSE next # {})
First == Is({"pop", "raw"}) /\ r \notin {"!", "-"} =>
  LET i == CHOOSE j \in DOMAIN prev.kids : prev.kids[j].text = r
  IN prev.kids[i].tag = Last.a /\ i > prev.idx /\ \A j \in prev.idx + 1 .. i - 1 : prev.kids[j].tag # Last.a
\* what was passed is out of reach of pop
Passed == Is({"pop", "raw", "sub"}) => \A i \in 1 .. prev.idx : el.kids[i] = prev.kids[i]
\* working inside an element touches that element only
Local == Is({"sub"}) => Cardinality({i \in DOMAIN el.kids : el.kids[i] \notin Range(prev.kids)}) <= 1 /\ el.text = prev.text /\ el.attrs = prev.attrs
\* a snapshot gives what the element itself would have given; put back, it is as if done there
Snap == Is({"snap", "swap"}) =>
  LET d == Fold(LAMBDA acc, s : LET q == Step(acc.el, s) IN [el |-> q.el, out |-> acc.out \o q.r \o ";"], [el |-> prev, out |-> ""], Last.sub)
  IN r = "<" \o d.out \o ">" /\ el = (IF Last.op = "swap" THEN d.el ELSE prev)
Again == Is({"peek", "get", "native"}) => Step(el, Last).r = r         \* asked again, the same answer
GetPop == Is({"get"}) => Step(el, Op("attr", Last.a, ST)).r = r         \* taken, what was shown
PeekPop == Is({"peek"}) => (Step(el, Op("pop", Last.a, Last.mode)).r # "!") = (r # "!")
Twice == Is({"text", "tail", "attr", "attrs"}) => Step(el, Last).r = "-"
\* what the reader leaves is what the next field sees, and what is reported
Doc == DocF(f)
Rel == Parse(RegOf(<<Hooked("ignore", ModeOf(Num), ops)>>), "M", Doc, O0)
Out == Parse(RegOf(<<Hooked("forbid", ModeOf(Num), ops)>>), "M", Doc, O0)
Then == Len(ops) = Steps =>
  LET m == ModeOf(Num)
      Pop(acc) == IF ~acc.go THEN acc
                  ELSE LET h == PopElement(acc.el, "a", m)
                       IN IF h.pos = 0 \/ h.el.kids[h.pos].text = "" THEN [acc EXCEPT !.go = FALSE]
                          ELSE [acc EXCEPT !.el = SetKid(h.el, h.pos, PopText(h.el.kids[h.pos]).el), !.xs = Append(@, h.el.kids[h.pos].text)]
      rest == Fold(LAMBDA acc, i : Pop(acc), [go |-> TRUE, el |-> el, xs |-> <<>>], <<1, 2, 3, 4>>)
      rel == Rel  got == rel.v.f[2][2]  out == Out
      xs == IF got.k = "none" THEN <<>> ELSE Map(LAMBDA v : SubSeq(v.v, 5, Len(v.v)), got.xs)
      left == Left(rest.el)
  IN /\ rel.x = "" /\ xs = rest.xs
     /\ IF left = {} THEN out.x = "" /\ out.v = rel.v
        ELSE out.x = "V" /\ Len(out.errs) = Cardinality(left) /\ \A e \in Range(out.errs) : e.type = "extra_forbidden"
=============================================================================
