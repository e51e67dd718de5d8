------------------------------- MODULE MC_Write -----------------------------
(* Small scope: a class of one or two fields out of a menu of sixteen kinds,   *)
(* every combination of their values (given or left to the default), the      *)
(* eight combinations of skip_empty, exclude_none, exclude_unset, and empty   *)
(* text read back as an empty string or as nothing.  All combinations.        *)
EXTENDS MCBase

IntV(n) == PrimV("int:" \o n)
StrV(s) == PrimV("str:" \o s)
L(xs) == [k |-> "l", t |-> "list", xs |-> xs]
D(kv) == [k |-> "d", kv |-> kv]
Inst(c, f) == [k |-> "m", c |-> c, f |-> f, s |-> {f[i][1] : i \in DOMAIN f}]
Inner == [Cls0("K") EXCEPT !.fields = <<[Fld0("n", IntT) EXCEPT !.ent = <<Attr("n")>>],
                                        WithNone([Fld0("q", OptT(IntT)) EXCEPT !.ent = <<Elem("q")>>])>>]
Ks == <<Inst("K", <<<<"n", IntV("1")>>, <<"q", NoneV>>>>), Inst("K", <<<<"n", IntV("2")>>, <<"q", IntV("2")>>>>)>>
Nil1(e) == [e EXCEPT !.nil = <<TRUE>>]
Dft(f, v) == [f EXCEPT !.dflt = <<v>>]
IntDict == [k |-> "dict", key |-> StrT, of |-> IntT]

\* [f: the field, vs: its values]; t: its tag, n: its name
Kind(kd, n, t) ==
  LET fl(typ, e) == [Fld0(n, typ) EXCEPT !.ent = <<e>>]
      ofac(f) == f @@ [fac |-> TRUE]
  IN CASE kd = 1 -> [f |-> fl(StrT, Attr(t)), vs |-> <<StrV("a"), StrV("")>>]
       [] kd = 2 -> [f |-> Dft(fl(OptT(IntT), Attr(t)), NoneV), vs |-> <<NoneV, IntV("1")>>]
       [] kd = 3 -> [f |-> fl(StrT, Elem(t)), vs |-> <<StrV("a"), StrV("")>>]
       [] kd = 4 -> [f |-> Dft(fl(OptT(IntT), Elem(t)), NoneV), vs |-> <<NoneV, IntV("1")>>]
       [] kd = 5 -> [f |-> Dft(fl(OptT(IntT), Nil1(Elem(t))), NoneV), vs |-> <<NoneV, IntV("1")>>]
       [] kd = 6 -> [f |-> ofac(Dft(fl(ListT(IntT), Elem(t)), L(<<>>))), vs |-> <<L(<<>>), L(<<IntV("1")>>), L(<<IntV("1"), IntV("2")>>)>>]
       [] kd = 7 -> [f |-> Dft(fl(OptT(ModelT("K")), Elem(t)), NoneV), vs |-> <<NoneV>> \o Ks]
       [] kd = 8 -> [f |-> ofac(Dft(fl(ListT(ModelT("K")), Elem(t)), L(<<>>))), vs |-> <<L(<<>>), L(Ks)>>]
       [] kd = 9 -> [f |-> Dft(fl(OptT(IntT), WrapIn("w", Attr(t))), NoneV), vs |-> <<NoneV, IntV("1")>>]
       [] kd = 10 -> [f |-> Dft(fl(OptT(StrT), WrapIn("w", Elem(t))), NoneV), vs |-> <<NoneV, StrV("a"), StrV("")>>]
       [] kd = 11 -> [f |-> ofac(Dft(fl(ListT(IntT), WrapIn("w/v", Elem(t))), L(<<>>))), vs |-> <<L(<<>>), L(<<IntV("1"), IntV("2")>>)>>]
       [] kd = 12 -> [f |-> Dft(fl(OptT(IntDict), Elem(t)), NoneV), vs |-> <<NoneV, D(<<>>), D(<<<<StrV("a"), IntV("1")>>>>)>>]
       [] kd = 13 -> [f |-> Dft(fl(OptT(ModelT("K")), Nil1(Elem(t))), NoneV), vs |-> <<NoneV, Ks[1]>>]
       [] kd = 14 -> [f |-> Dft(fl(IntT, Elem(t)), IntV("2")), vs |-> <<IntV("2"), IntV("1")>>]
       [] kd = 15 -> [f |-> Dft(fl(IntT, WrapIn("v/w", Attr(t))), IntV("2")), vs |-> <<IntV("2"), IntV("1")>>]
       [] kd = 16 -> [f |-> Dft(Fld0(n, OptT(IntT)), NoneV), vs |-> <<NoneV, IntV("1")>>]
NK == 16
\* a text has no name and no place of its own: the first field only
Configs == {ks \in Seqs(1 .. NK, 1, 2) : Len(ks) < 2 \/ ks[2] # 16}
K(c, i) == Kind(c[i], "f" \o ToString(i), "t" \o ToString(i))
ClassOf(c) == [Cls0("M") EXCEPT !.fields = [i \in DOMAIN c |-> K(c, i).f]]
Defs(c) == <<Inner, ClassOf(c)>>
\* the values of a class and which of them were given; only defaults may not be
Vals(c) == {[i \in DOMAIN c |-> <<x[i], g[i]>>] : x \in {y \in [DOMAIN c -> 1 .. 3] : \A i \in DOMAIN c : y[i] <= Len(K(c, i).vs)},
                                                 g \in [DOMAIN c -> BOOLEAN]}
Fits(c, x) == \A i \in DOMAIN c : x[i][2] \/ K(c, i).f.dflt = <<K(c, i).vs[x[i][1]]>>
ValOf(c, i, x) == K(c, i).vs[x[i][1]]
Obj(c, x) == [k |-> "m", c |-> "M", f |-> [i \in DOMAIN c |-> <<K(c, i).f.name, ValOf(c, i, x)>>],
              s |-> {K(c, i).f.name : i \in {j \in DOMAIN c : x[j][2]}}]

VARIABLES cfg, x, fl, eas, out, back
vars == <<cfg, x, fl, eas, out, back>>
Flags8 == [se : BOOLEAN, en : BOOLEAN, eu : BOOLEAN]
W(c, o, f) == WriteDoc(RegOf(Defs(c)), o, f).w
BNum(b) == IF b THEN 1 ELSE 0
Num(c, y, f, e) == Fold(LAMBDA a, k : a * 16 + k, 1, c) * 5 + Fold(LAMBDA a, k : a * 6 + k[1] * 2 + BNum(k[2]), 1, y) * 7
                   + BNum(f.se) * 3 + BNum(f.en) * 11 + BNum(f.eu) * 17 + BNum(e) * 19
KwOf(c, y) == [j \in 1 .. Cardinality({i \in DOMAIN c : y[i][2]}) |->
                 LET i == CHOOSE k \in DOMAIN c : y[k][2] /\ Cardinality({m \in 1 .. k : y[m][2]}) = j
                 IN <<K(c, i).f.name, ValOf(c, i, y)>>]

Init0 == cfg \in Configs /\ x = <<>> /\ fl = Fl0 /\ eas = FALSE /\ out = <<>> /\ back = <<>>
Next == /\ x = <<>> /\ cfg' = cfg
        /\ x' \in {y \in Vals(cfg) : Fits(cfg, y)}
        /\ fl' \in Flags8 /\ eas' \in BOOLEAN
        /\ out' = W(cfg, Obj(cfg, x'), fl')
        /\ back' = Parse(RegOf(Defs(cfg)), "M", DocOf(out'), [ctx |-> <<>>, eas |-> eas'])
        /\ IF Turn(Num(cfg, x', fl', eas'))
           THEN Export(Defs(cfg), <<NewEv("o", "M", KwOf(cfg, x')), SerEv("o", fl'), [RtEv("o", "p", fl') EXCEPT !.eas = eas']>>) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == x # <<>>
V0(i) == ValOf(cfg, i, x)
Set(i) == x[i][2]
\* values without an unambiguous form in a document
Lossy(i) == LET v == V0(i) IN
  \/ v = StrV("") /\ cfg[i] # 1 /\ (~eas \/ fl.se \/ cfg[i] = 16)                         \* an empty text is nothing, unless asked for
  \/ v = NoneV /\ ~fl.se /\ ~fl.en /\ (cfg[i] = 2 \/ (eas /\ cfg[i] \in {4, 16}))    \* nothing, written as an empty text
  \/ v = NoneV /\ ~fl.en /\ ~fl.se /\ cfg[i] = 12                 \* nothing written as an empty mapping
  \/ v = D(<<>>) /\ fl.se
  \/ v \in {Ks[1], L(Ks)} /\ eas /\ ~fl.se /\ ~fl.en                         \* the same inside the object
Unwritten(i) == fl.eu /\ ~Set(i)
\* a value without the record of what was given
RECURSIVE Bare(_)
Bare(v) == CASE v.k = "l" -> <<"l", v.t, Map(Bare, v.xs)>> [] v.k = "m" -> <<"m", v.c, Map(LAMBDA e : <<e[1], Bare(e[2])>>, v.f)>> [] OTHER -> <<v>>
\* C01, C13: reading back what was written gives the object, whatever was left out
RoundTrip == Done /\ (\A i \in DOMAIN cfg : Lossy(i) => Unwritten(i)) /\ ~(eas /\ cfg[1] = 16 /\ V0(1) = NoneV) => back.x = "" /\ Bare(back.v) = Bare(Obj(cfg, x))

\* C13: what the flags do is leave things out
RECURSIVE Pruned(_, _), Embeds(_, _, _, _)
Embeds(ks, i, ms, j) ==          \* ks[i..] is what is left of ms[j..]
  \/ i > Len(ks)
  \/ /\ j <= Len(ms)
     /\ \/ Pruned(ks[i], ms[j]) /\ Embeds(ks, i + 1, ms, j + 1)
        \/ Embeds(ks, i, ms, j + 1)
Pruned(k, m) == k.tag = m.tag /\ k.text \in {m.text, ""} /\ Range(k.attrs) \subseteq Range(m.attrs) /\ Embeds(k.kids, 1, m.kids, 1)
OnlyLess == Done => Pruned(out, W(cfg, Obj(cfg, x), Fl0))

\* the class without the fields of a set
Without(c, S) == [ClassOf(c) EXCEPT !.fields = Filter(ClassOf(c).fields, LAMBDA f : f.name \notin S)]
LessObj(o, S) == [o EXCEPT !.f = Filter(o.f, LAMBDA e : e[1] \notin S), !.s = @ \ S]
W2(c, S, f) == WriteDoc(RegOf(<<Inner, Without(c, S)>>), LessObj(Obj(c, x), S), f).w
N(i) == K(cfg, i).f.name
\* C13: exclude_unset writes the document of an object that does not have the fields never given
UnsetLaw == Done /\ fl.eu =>
  LET S == {N(i) : i \in {j \in DOMAIN cfg : ~Set(j)}} IN out = W2(cfg, S, [fl EXCEPT !.eu = FALSE])
\* C13: exclude_none and skip_empty do so with the fields that are None
NoneLaw == Done /\ (fl.en \/ fl.se) =>
  LET S == {N(i) : i \in {j \in DOMAIN cfg : V0(j) = NoneV /\ (fl.en \/ cfg[j] # 13)}} IN out = W2(cfg, S, fl)
\* C13: skip_empty leaves no empty element
RECURSIVE NoHusk(_)
NoHusk(e) == \A i \in DOMAIN e.kids : ~IsEmptyEl(e.kids[i]) /\ NoHusk(e.kids[i])
HuskLaw == Done /\ fl.se => NoHusk(out)
\* C13: and loses nothing that is there
RECURSIVE Content(_, _)
Content(e, p) == {<<p, a>> : a \in Range(e.attrs)} \cup (IF e.text = "" THEN {} ELSE {<<p, <<"#", e.text>>>>})
                 \cup UNION {Content(e.kids[i], p \o <<e.kids[i].tag>>) : i \in DOMAIN e.kids}
KeepLaw == Done => LET full == Content(W(cfg, Obj(cfg, x), [fl EXCEPT !.se = FALSE]), <<>>)
                   IN fl.se => {z \in full : z[2] \notin {<<"t1", "">>, <<"t2", "">>} /\ z[2] # <<XSINIL, "true">>}
                               = {z \in Content(out, <<>>) : z[2] \notin {<<"t1", "">>, <<"t2", "">>} /\ z[2] # <<XSINIL, "true">>}
\* C02: every field is written by itself, in the order of declaration; only wrappers are shared
SharesPath(c) == Len(c) = 2 /\ ((c[1] \in {9, 10, 11} /\ c[2] \in {9, 10, 11}) \/ (c[1] = 15 /\ c[2] = 15))
Additive == Done /\ Len(cfg) = 2 /\ ~SharesPath(cfg) =>
  LET a == W2(cfg, {"f2"}, fl)  b == W2(cfg, {"f1"}, fl)
  IN out.attrs = a.attrs \o b.attrs /\ out.kids = a.kids \o b.kids /\ out.text = a.text \o b.text
Shared == Done /\ SharesPath(cfg) => Len(out.kids) <= 1
\* C14: an xsi:nil element stands for None, nothing else does
RECURSIVE Nils(_)
Nils(e) == Cardinality({i \in DOMAIN e.attrs : e.attrs[i] = <<XSINIL, "true">>}) + Fold(LAMBDA a, k : a + Nils(k), 0, e.kids)
NilLaw == Done => Nils(out) = Cardinality({i \in DOMAIN cfg : V0(i) = NoneV /\ ~Unwritten(i) /\ ~fl.en
                                                              /\ (cfg[i] = 13 \/ (cfg[i] = 5 /\ ~fl.se))})
=============================================================================
