------------------------------- MODULE MC_Err -------------------------------
(* Small scope: a model of two or three required fields out of a menu of all  *)
(* the ways data is held (attribute, element, repeated, in a wrapper, a       *)
(* sub-model, repeated sub-models, a sub-model in a wrapper, a sub-model with *)
(* a sub-model of its own); a document in which each value is good, bad or    *)
(* missing, every element on a line of its own.  All combinations.            *)
(*                                                                            *)
(* The law: the errors are exactly these, at these places, of these lines.    *)
EXTENDS MCBase

Menu == <<"A", "E", "L", "W", "S", "SL", "WS", "D">>
Req1(n, t, e) == [Fld0(n, t) EXCEPT !.ent = <<e>>]
K == [Cls0("K") EXCEPT !.fields = <<Req1("n", IntT, Attr("n")), Req1("p", IntT, Elem("p"))>>]
H == [Cls0("H") EXCEPT !.fields = <<Req1("m", IntT, Attr("m")), Req1("k", ModelT("K"), Elem("k"))>>]
Field(i, k) ==
  LET n == "f" \o ToString(i)  t == "t" \o ToString(i)
  IN CASE k = "A" -> Req1(n, IntT, Attr(t)) [] k = "E" -> Req1(n, IntT, Elem(t)) [] k = "L" -> Req1(n, ListT(IntT), Elem(t))
       [] k = "W" -> Req1(n, IntT, WrapIn("w" \o t, Elem("a"))) [] k = "S" -> Req1(n, ModelT("K"), Elem(t))
       [] k = "SL" -> Req1(n, ListT(ModelT("K")), Elem(t)) [] k = "WS" -> Req1(n, ModelT("K"), WrapIn("w" \o t, Elem("k")))
       [] k = "D" -> Req1(n, ModelT("H"), Elem(t))
Configs == Seqs(Range(Menu), 2, 2) \cup (IF Deep THEN {<<a, b, c>> : a \in {"SL", "W", "A"}, b \in {"D", "L", "S"}, c \in {"E", "WS"}} ELSE {<<"A", "SL", "E">>, <<"W", "D", "L">>})
Defs(c) == <<K, H, [Cls0("M") EXCEPT !.fields = [i \in DOMAIN c |-> Field(i, c[i])]]>>

\* the state of one value: good, bad or gone
V3 == {"g", "b", "-"}
\* the state of a K: <<attribute, element>>
KS == V3 \X V3
KFew == {<<"g", "g">>, <<"b", "g">>, <<"g", "b">>, <<"-", "-">>}
States(k) ==
  CASE k \in {"A", "E"} -> V3
    [] k = "L" -> Seqs({"g", "b"}, 0, 2)
    [] k = "W" -> V3 \cup {"w"}
    [] k = "S" -> {<<"-">>} \cup KS
    [] k = "SL" -> Seqs(KFew, 0, 2)
    [] k = "WS" -> {<<"-">>, <<"w">>} \cup KFew
    [] k = "D" -> {<<"-">>} \cup {<<m, ks>> : m \in {"g", "b"}, ks \in {<<"gone">>} \cup KFew}

Txt(v) == IF v = "g" THEN "1" ELSE "a"
Nl(n) == [n EXCEPT !.tail = "\n", !.text = IF n.kids # <<>> THEN "\n" ELSE @]
WithA(n, al) == [n EXCEPT !.attrs = al]
KEl(tag, s) == WithA(Nl(Node(tag, "", IF s[2] = "-" THEN <<>> ELSE <<Nl(Node("p", Txt(s[2]), <<>>))>>)),
                     IF s[1] = "-" THEN <<>> ELSE <<<<"n", Txt(s[1])>>>>)
Els(i, k, s) ==
  LET t == "t" \o ToString(i)
  IN CASE k = "A" -> <<>>
       [] k = "E" -> IF s = "-" THEN <<>> ELSE <<Nl(Node(t, Txt(s), <<>>))>>
       [] k = "L" -> Map(LAMBDA x : Nl(Node(t, Txt(x), <<>>)), s)
       [] k = "W" -> CASE s = "-" -> <<>> [] s = "w" -> <<Nl(Node("w" \o t, "", <<>>))>> [] OTHER -> <<Nl(Node("w" \o t, "", <<Nl(Node("a", Txt(s), <<>>))>>))>>
       [] k = "S" -> IF s = <<"-">> THEN <<>> ELSE <<KEl(t, s)>>
       [] k = "SL" -> Map(LAMBDA x : KEl(t, x), s)
       [] k = "WS" -> CASE s = <<"-">> -> <<>> [] s = <<"w">> -> <<Nl(Node("w" \o t, "", <<>>))>> [] OTHER -> <<Nl(Node("w" \o t, "", <<KEl("k", s)>>))>>
       [] k = "D" -> IF s = <<"-">> THEN <<>>
                     ELSE <<WithA(Nl(Node(t, "", IF s[2] = <<"gone">> THEN <<>> ELSE <<KEl("k", s[2])>>)), <<<<"m", Txt(s[1])>>>>)>>
\* lines: in document order
RECURSIVE Numbered(_, _), NumberedAll(_, _)
Numbered(n, k) == LET r == NumberedAll(n.kids, k + 1) IN [n |-> [n EXCEPT !.line = k, !.kids = r.ns], k |-> r.k]
NumberedAll(ns, k) == IF ns = <<>> THEN [ns |-> <<>>, k |-> k]
                   ELSE LET a == Numbered(Head(ns), k)  b == NumberedAll(Tail(ns), a.k) IN [ns |-> <<a.n>> \o b.ns, k |-> b.k]
DocS(c, ss) == Numbered(WithA(Nl(Node("M", "", Flat([i \in DOMAIN c |-> Els(i, c[i], ss[i])]))),
                           Fold(LAMBDA acc, i : IF c[i] = "A" /\ ss[i] # "-" THEN Append(acc, <<"t" \o ToString(i), Txt(ss[i])>>) ELSE acc, <<>>,
                                [i \in DOMAIN c |-> i])), 1).n

VARIABLES cfg, ss, out
vars == <<cfg, ss, out>>
Start == <<>>
KNum(k) == CHOOSE i \in DOMAIN Menu : Menu[i] = k
Num(c) == Fold(LAMBDA a, k : a * 8 + KNum(k), 0, c)
\* a number of a document: of what stands in it
RECURSIVE DNum(_)
DNum(n) == Fold(LAMBDA a, k : (a * 31 + DNum(k)) % 100003, 7 * Len(n.attrs) + (IF n.text = "a" THEN 2 ELSE IF n.text = "1" THEN 1 ELSE 0)
                                                           + Fold(LAMBDA a, x : a * 3 + (IF x[2] = "a" THEN 1 ELSE 0), 11, n.attrs), n.kids)
Assign(c) == CASE Len(c) = 2 -> {<<a, b>> : a \in States(c[1]), b \in States(c[2])}
               [] OTHER -> {<<a, b, x>> : a \in States(c[1]), b \in States(c[2]), x \in States(c[3])}
Init0 == cfg \in Configs /\ ss = Start /\ out = <<>>
Next == /\ ss = Start /\ cfg' = cfg
        /\ ss' \in Assign(cfg)
        /\ LET d == DocS(cfg, ss') IN
           /\ out' = Parse(RegOf(Defs(cfg)), "M", d, O0)
           /\ IF Turn(Num(cfg) * 5 + DNum(d) * 3) THEN Export(Defs(cfg), <<ParseEv("o", "M", d)>>) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == ss # Start
Doc == DocS(cfg, ss)
IP(loc, line) == [loc |-> loc, type |-> "int_parsing", line |-> line]
MS(loc, line) == [loc |-> loc, type |-> "missing", line |-> line]
One(v, loc, line, up) == CASE v = "g" -> <<>> [] v = "b" -> <<IP(loc, line)>> [] OTHER -> <<MS(loc, up)>>
KidsNamed(n, t) == Filter(n.kids, LAMBDA k : k.tag = t)
\* the errors of a K read from element e
KErr(s, e, loc) == One(s[1], loc \o <<"n">>, e.line, e.line)
                   \o One(s[2], loc \o <<"p">>, IF e.kids = <<>> THEN 0 ELSE e.kids[1].line, e.line)
E(i) == KidsNamed(Doc, "t" \o ToString(i))
W(i) == KidsNamed(Doc, "wt" \o ToString(i))
F(i) == <<"f" \o ToString(i)>>
\* errors inside the sub-models of a field
Inner(i) ==
  LET s == ss[i] IN
  CASE cfg[i] = "S" /\ s # <<"-">> -> KErr(s, E(i)[1], F(i))
    [] cfg[i] = "SL" -> Flat([j \in DOMAIN s |-> KErr(s[j], E(i)[j], F(i) \o <<IdxTok(j - 1)>>)])
    [] cfg[i] = "WS" /\ s \notin {<<"-">>, <<"w">>} -> KErr(s, W(i)[1].kids[1], F(i))
    [] cfg[i] = "D" /\ s # <<"-">> ->
         LET inK == IF s[2] = <<"gone">> THEN <<>> ELSE KErr(s[2], E(i)[1].kids[1], F(i) \o <<"k">>)
         IN IF inK # <<>> THEN inK
            ELSE One(s[1], F(i) \o <<"m">>, E(i)[1].line, 0) \o (IF s[2] = <<"gone">> THEN <<MS(F(i) \o <<"k">>, E(i)[1].line)>> ELSE <<>>)
    [] OTHER -> <<>>
\* errors of the values of the model itself
OwnErrs(i) ==
  LET s == ss[i]  top == Doc.line IN
  CASE cfg[i] = "A" -> One(s, F(i), top, top)
    [] cfg[i] = "E" -> One(s, F(i), IF s = "-" THEN 0 ELSE E(i)[1].line, top)
    [] cfg[i] = "L" -> IF s = <<>> THEN <<MS(F(i), top)>>
                       ELSE Flat([j \in DOMAIN s |-> One(s[j], F(i) \o <<IdxTok(j - 1)>>, E(i)[j].line, top)])
    [] cfg[i] = "W" -> (CASE s = "-" -> <<MS(F(i), top)>> [] s = "w" -> <<MS(F(i), 0 - 2)>>
                          [] OTHER -> One(s, F(i), W(i)[1].kids[1].line, top))
    [] cfg[i] = "WS" /\ s = <<"w">> -> <<MS(F(i), 0 - 2)>>
    [] cfg[i] \in {"S", "WS", "D"} /\ s = <<"-">> -> <<MS(F(i), top)>>
    [] cfg[i] = "SL" /\ s = <<>> -> <<MS(F(i), top)>>
    [] OTHER -> <<>>
Idx == [i \in DOMAIN cfg |-> i]
Expected == LET inner == Flat(Map(Inner, Idx)) IN IF inner # <<>> THEN inner ELSE Flat(Map(OwnErrs, Idx))
\* in a wrapper that is there without the value: the wrapper, or the model around it
Near(a, b) == a.loc = b.loc /\ a.type = b.type /\ (a.line = b.line \/ b.line = 0 - 2)
Exactly == Done => /\ Len(out.errs) = Len(Expected)
                   /\ \A i \in DOMAIN Expected : Near(out.errs[i], Expected[i])
\* all or nothing
Either == Done => /\ (out.x = "") <=> (Expected = <<>>)
                  /\ out.x # "" => out.x = "V" /\ out.v = NoneV
\* what is right is read
Read == Done /\ out.x = "" => \A i \in DOMAIN cfg : out.v.f[i][2].k # "none"
=============================================================================
