------------------------------ MODULE MC_Noise ------------------------------
(* Small scope: a model with a text, integers, an optional and a repeated     *)
(* element, a sub-model, a wrapper and a whole element; a document of it, and *)
(* every way to put one or two comments or processing instructions, with or   *)
(* without text behind them, at any place of it.                              *)
(*                                                                            *)
(* The law: the result is that of the document in which the text stands there *)
(* without them.                                                              *)
EXTENDS MCBase

Opt1(n, t, e) == WithNone([Fld0(n, OptT(t)) EXCEPT !.ent = e])
K == [Cls0("K") EXCEPT !.fields = <<Opt1("t", StrT, <<>>), Opt1("p", IntT, <<Elem("p")>>)>>]
M(c) == [Cls0("M") EXCEPT !.raws = TRUE, !.extra = <<c.extra>>, !.mode = <<c.mode>>, !.fields =
  (IF c.text = "none" THEN <<>> ELSE <<Opt1("t", IF c.text = "int" THEN IntT ELSE StrT, <<>>)>>)
  \o <<Opt1("a", ListT(IntT), <<Elem("a")>>), Opt1("k", ModelT("K"), <<Elem("k")>>),
       Opt1("w", StrT, <<WrapIn("w", Elem("b"))>>), Opt1("r", [k |-> "raw"], <<Elem("r")>>)>>]
Kc(c) == [K EXCEPT !.extra = <<c.extra>>, !.mode = <<c.mode>>]
Defs(c) == <<Kc(c), M(c)>>
Configs == [extra : {"ignore", "forbid"}, mode : {"strict", "unordered"}, text : {"none", "int", "str"}]

Base == Node("M", "1", <<Node("a", "1", <<>>), Node("a", "", <<>>), Node("k", "", <<Node("p", "2", <<>>)>>),
                         Node("w", "", <<Node("b", "", <<>>)>>), Node("r", "x", <<Node("x", "y", <<>>)>>)>>)
\* places: the element (as a path of positions) and after which of its sub-elements
Places == << <<<<>>, 0>>, <<<<>>, 1>>, <<<<>>, 2>>, <<<<>>, 3>>, <<<<>>, 4>>, <<<<>>, 5>>, <<<<1>>, 0>>, <<<<2>>, 0>>, <<<<3>>, 0>>, <<<<3>>, 1>>,
             <<<<3, 1>>, 0>>, <<<<4>>, 0>>, <<<<4>>, 1>>, <<<<4, 1>>, 0>>, <<<<5>>, 0>>, <<<<5>>, 1>>, <<<<5, 1>>, 0>> >>
Things == [at : DOMAIN Places, t : {"#comment", "#pi"}, tail : {"", "2", "a"}]
Noisy(t, tail) == [Node(t, "z", <<>>) EXCEPT !.tail = tail]

\* put x at its place, behind what was put there before: among the sub-elements, or as text
RECURSIVE PutNoise(_, _, _, _)
PutNoise(n, path, gap, k) ==
  IF path # <<>>
  THEN LET real == {i \in DOMAIN n.kids : ~Noise(n.kids[i])}
           i == CHOOSE i \in real : Cardinality({j \in real : j <= i}) = Head(path)
       IN [n EXCEPT !.kids[i] = PutNoise(@, Tail(path), gap, k)]
  ELSE LET before == {i \in 0 .. Len(n.kids) : Cardinality({j \in 1 .. i : ~Noise(n.kids[j])}) = gap}
           i == CHOOSE i \in before : \A j \in before : j <= i
       IN [n EXCEPT !.kids = SubSeq(n.kids, 1, i) \o <<k>> \o SubSeq(n.kids, i + 1, Len(n.kids))]
RECURSIVE PutText(_, _, _, _)
PutText(n, path, gap, s) ==
  IF path # <<>> THEN [n EXCEPT !.kids[Head(path)] = PutText(@, Tail(path), gap, s)]
  ELSE IF gap = 0 THEN [n EXCEPT !.text = @ \o s] ELSE [n EXCEPT !.kids[gap].tail = @ \o s]
DocN(xs) == Fold(LAMBDA n, x : PutNoise(n, Places[x.at][1], Places[x.at][2], Noisy(x.t, x.tail)), Base, xs)
DocT(xs) == Fold(LAMBDA n, x : PutText(n, Places[x.at][1], Places[x.at][2], x.tail), Base, xs)

VARIABLES cfg, xs, out
vars == <<cfg, xs, out>>
Regs == [c \in Configs |-> RegOf(Defs(c))]
XNum(x) == x.at * 6 + (IF x.t = "#pi" THEN 3 ELSE 0) + (CASE x.tail = "" -> 0 [] x.tail = "2" -> 1 [] OTHER -> 2)
DNum(s) == Fold(LAMBDA a, x : a * 103 + XNum(x), 1, s)
Num(c) == ((IF c.extra = "forbid" THEN 1 ELSE 0) * 2 + (IF c.mode = "strict" THEN 1 ELSE 0)) * 3 + (CASE c.text = "none" -> 0 [] c.text = "int" -> 1 [] OTHER -> 2)
Start == <<[at |-> 0]>>
Sampled(c, s) == Len(s) <= 1 \/ (DNum(s) + Num(c)) % (IF Deep THEN 3 ELSE 13) = Seed % (IF Deep THEN 3 ELSE 13)
Init0 == cfg \in Configs /\ xs = Start /\ out = <<>>
Next == /\ xs = Start /\ cfg' = cfg
        /\ xs' \in {s \in Seqs(Things, 0, 2) : Sampled(cfg, s)}
        /\ out' = Parse(Regs[cfg], "M", DocN(xs'), O0)
        /\ IF Turn(Num(cfg) * 5 + DNum(xs') * 3) THEN Export(Defs(cfg), <<ParseEv("o", "M", DocN(xs'))>>) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == xs # Start
Same(a, b) == a.x = b.x /\ a.v = b.v /\ a.errs = b.errs
\* C17: the text stands there, nothing else changes
AsText == Done => Same(out, Parse(Regs[cfg], "M", DocT(xs), O0))
\* C17: without text behind them they are not there
Silent == Done /\ (\A i \in DOMAIN xs : xs[i].tail = "") => Same(out, Parse(Regs[cfg], "M", Base, O0))
\* C17: which of the two they are does not matter
Alike == Done => Same(out, Parse(Regs[cfg], "M", DocN(Map(LAMBDA x : [x EXCEPT !.t = "#comment"], xs)), O0))
\* what stands in the text of a value is part of it
Joined2 == Done /\ Len(xs) = 1 /\ xs[1].at = 7 /\ xs[1].tail = "2" /\ out.x = "" =>
  \E i \in DOMAIN out.v.f : out.v.f[i][1] = "a" /\ out.v.f[i][2].xs[1] = PrimV("int:12")
=============================================================================
