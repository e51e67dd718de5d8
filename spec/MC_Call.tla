------------------------------ MODULE MC_Call ------------------------------
(* One call after the other: a class holds sub-models in one of thirteen ways *)
(* (lists, tuples, unions, tagged unions, wrappers, root models, mappings,    *)
(* deeper models); every content of the values in the document, every         *)
(* combination of options of a reading, a writing and a second reading of the *)
(* same tree; computed values, and data with their names in the document.     *)
EXTENDS MCBase

Cx == Prim("cx")
Lit(s) == Prim(s)
Opt0(n, t, e) == WithNone([Fld0(n, OptT(t)) EXCEPT !.ent = <<e>>])
Comp(n, e, s) == [name |-> n, ent |-> <<e>>, salias |-> <<>>, typ |-> OptT(Cx), src |-> <<s>>, const |-> <<>>]
Const(n, e, v) == [name |-> n, ent |-> <<e>>, salias |-> <<>>, typ |-> StrT, src |-> <<>>, const |-> <<v>>]
Leafs == <<Opt0("n", Cx, Attr("n")), Opt0("s", Cx, Elem("s"))>>
K == [Cls0("K") EXCEPT !.fields = Leafs, !.comps = <<Comp("cn", Attr("c"), "n"), Comp("cs", Elem("e"), "s")>>]
J == [K EXCEPT !.name = "J", !.hn = "J", !.tag = <<"k">>, !.fields = <<[Fld0("q", IntT) EXCEPT !.ent = <<Attr("q")>>]>> \o Leafs]
Kind(n, v, ty) == [K EXCEPT !.name = n, !.hn = n, !.tag = <<"k">>, !.fields = <<[Fld0("kind", Prim(ty)) EXCEPT !.ent = <<Attr("kind")>>]>> \o Leafs]
A1 == Kind("A1", "k1", "lk1")
A2 == Kind("A2", "k2", "lk2")
H == [Cls0("H") EXCEPT !.fields = <<[Fld0("k", ModelT("K")) EXCEPT !.ent = <<Elem("k")>>]>>]
RT == [Cls0("R") EXCEPT !.kind = "root", !.fields = <<[Fld0("root", ListT(ModelT("K"))) EXCEPT !.ent = <<Elem("k")>>]>>]
Classes == <<K, J, A1, A2, H, RT>>
Tagged == [k |-> "tagged", disc |-> "kind", of |-> <<<<"k1", "A1">>, <<"k2", "A2">>>>, strtags |-> TRUE]
CxDict == [k |-> "dict", key |-> StrT, of |-> Cx]
Tup(ts) == [k |-> "tuple", of |-> ts]
Node1(tag, kids) == Node(tag, "", kids)
\* [typ, ent, n: how many leaves, doc: the elements of the leaves kids]
Menu == <<
  [t |-> ModelT("K"), e |-> Elem("k"), n |-> 1],
  [t |-> ListT(ModelT("K")), e |-> Elem("k"), n |-> 2],
  [t |-> Tup(<<ModelT("K"), ModelT("K")>>), e |-> Elem("k"), n |-> 2],
  [t |-> UnionT(<<ModelT("J"), ModelT("K")>>), e |-> Elem("k"), n |-> 1],
  [t |-> ModelT("K"), e |-> WrapIn("w", Elem("k")), n |-> 1],
  [t |-> ListT(ModelT("K")), e |-> WrapIn("w/v", Elem("k")), n |-> 2],
  [t |-> Tagged, e |-> Elem("k"), n |-> 1],
  [t |-> ModelT("R"), e |-> Elem("r"), n |-> 2],
  [t |-> ListT(ModelT("R")), e |-> Elem("r"), n |-> 2],
  [t |-> ModelT("H"), e |-> Elem("h"), n |-> 1],
  [t |-> ListT(UnionT(<<ModelT("J"), ModelT("K")>>)), e |-> WrapIn("w", Elem("k")), n |-> 2],
  [t |-> ListT(Tagged), e |-> Elem("k"), n |-> 2],
  [t |-> ListT(Tup(<<ModelT("K"), ModelT("K")>>)), e |-> Elem("k"), n |-> 2] >>
Place(k, ks) ==
  CASE k \in {5} -> <<Node1("w", ks)>> [] k = 6 -> <<Node1("w", <<Node1("v", ks)>>)>> [] k \in {8, 10} -> <<Node1(IF k = 8 THEN "r" ELSE "h", ks)>>
    [] k = 9 -> Map(LAMBDA e : Node1("r", <<e>>), ks) [] k = 11 -> <<Node1("w", ks)>> [] OTHER -> ks
M(k) == [Cls0("M") EXCEPT !.fields = <<Opt0("h", Menu[k].t, Menu[k].e)>>,
                          !.comps = <<Const("z", Elem("z"), PrimV("str:a"))>>]
Defs(k) == Classes \o <<M(k)>>
Regs == [k \in DOMAIN Menu |-> RegOf(Defs(k))]
Forbid == [k \in DOMAIN Menu |-> RegOf(Map(LAMBDA d : IF d.kind = "root" THEN d ELSE [d EXCEPT !.extra = <<"forbid">>], Defs(k)))]
Reg(k) == Regs[k]

\* a leaf: <<attribute, element>>: "-" not there
LeafVals == {"-", "", "a"}
LN(l) == CASE l = "-" -> 0 [] l = "" -> 1 [] OTHER -> 2
LNum(l) == Fold(LAMBDA s, x : s * 9 + LN(x[1]) * 3 + LN(x[2]), 0, l)
\* all contents of one leaf; of two leaves a third, VERIF_SEED tells which (all when thorough)
Leaves(k) == {l \in [1 .. Menu[k].n -> LeafVals \X LeafVals] : Deep \/ Len(l) = 1 \/ LNum(l) % 3 = Seed % 3}
LeafEl(k, l, i, dup) ==
  [Node("k", "", (IF l[2] = "-" THEN <<>> ELSE <<Node("s", l[2], <<>>)>>) \o (IF dup THEN <<Node("e", "x y", <<>>)>> ELSE <<>>))
   EXCEPT !.attrs = (IF k \in {7, 12} THEN <<<<"kind", IF i = 1 THEN "k1" ELSE "k2">>>> ELSE <<>>)
                    \o (IF l[1] = "-" THEN <<>> ELSE <<<<"n", l[1]>>>>) \o (IF dup THEN <<<<"c", "x y">>>> ELSE <<>>)]
Doc(k, ls, dup) == Node("M", "", Place(k, [i \in DOMAIN ls |-> LeafEl(k, ls[i], i, dup)]) \o (IF dup THEN <<Node("z", "x y", <<>>)>> ELSE <<>>))

Ctxs == {<<>>, <<"c1">>, <<"c2">>}
VARIABLES k, ls, dup, o1, o2, fl, a, b, w
vars == <<k, ls, dup, o1, o2, fl, a, b, w>>
Init0 == k \in DOMAIN Menu /\ ls \in Leaves(k) /\ dup = FALSE /\ o1 = O0 /\ o2 = O0 /\ fl = Fl0 /\ a = <<>> /\ b = <<>> /\ w = <<>>
BN(x) == IF x THEN 1 ELSE 0
Num == (LNum(ls') + 83 * k) * 5 + BN(dup') * 2 + BN(o1'.eas) * 3 + Len(o1'.ctx) * 7 + BN(fl'.se) * 11 + BN(fl'.en) * 13 + BN(fl'.eu) * 17
Next ==
  /\ a = <<>> /\ k' = k /\ ls' = ls
  /\ dup' \in BOOLEAN
  /\ o1' \in [ctx : IF Deep THEN Ctxs ELSE {<<>>, <<"c1">>}, eas : BOOLEAN]
  /\ fl' \in (IF Deep \/ Len(ls') = 1 THEN [se : BOOLEAN, en : BOOLEAN, eu : BOOLEAN]
              ELSE {[se |-> x = 1, en |-> x = 2, eu |-> x = 3] : x \in 0 .. 3})
  /\ o2' = [ctx |-> IF o1'.ctx = <<"c2">> THEN <<>> ELSE <<"c2">>, eas |-> ~o1'.eas]
  /\ a' = Parse(Reg(k), "M", Doc(k, ls', dup'), o1')
  /\ b' = Parse(Reg(k), "M", Doc(k, ls', dup'), o2')
  /\ w' = WriteDoc(Reg(k), a'.v, fl').w
  /\ IF Turn(Num)
     THEN LET pe(o, q) == [ParseEv(o, "M", Doc(k, ls', dup')) EXCEPT !.ctx = q.ctx, !.eas = q.eas, !.src = "tree"]
              lk(o) == [e |-> "look", o |-> o]
          IN Export(Defs(k), <<pe("o", o1'), SerEv("o", fl'), pe("o2", o2'), lk("o"), SerEv("o", fl'), SerEv("o2", fl'),
                               [e |-> "poke", o |-> "o"], lk("o2"), SerEv("o2", Fl0), pe("o3", o1'), lk("o2"), SerEv("o3", fl')>>)
     ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == a # <<>>
\* the sub-models of a value, in order
RECURSIVE Subs(_)
Subs(v) == CASE v.k = "l" -> Flat(Map(Subs, v.xs))
             [] v.k = "m" -> IF v.c \in {"K", "J", "A1", "A2"} THEN <<v>> ELSE Flat(Map(LAMBDA e : Subs(e[2]), v.f))
             [] OTHER -> <<>>
Reads(t, isAttr, q) ==          \* what a text is read as under the options q of the call
  IF t = "-" \/ (t = "" /\ ~isAttr /\ ~q.eas) THEN NoneV
  ELSE PrimV("str:" \o t \o "@" \o (IF Has(q.ctx) THEN The(q.ctx) ELSE "no"))
\* C23: the options of the call, and no other call's, reach every value
Reach(r, q) == /\ r.x = "" /\ Len(Subs(r.v)) = Len(ls)
               /\ \A i \in DOMAIN ls : /\ FieldOf(Subs(r.v)[i], "n") = Reads(ls[i][1], TRUE, q)
                                       /\ FieldOf(Subs(r.v)[i], "s") = Reads(ls[i][2], FALSE, q)
Given == Done => \A i \in DOMAIN ls : LET s == Subs(a.v)[i].s IN ("n" \in s) = (Reads(ls[i][1], TRUE, o1) # NoneV) /\ ("s" \in s) = (Reads(ls[i][2], FALSE, o1) # NoneV)
ReachA == Done => Reach(a, o1)
ReachB == Done /\ fl = Fl0 => Reach(b, o2)
\* C20: data with the names of computed values is not read
NotRead == Done /\ dup /\ fl = Fl0 => a.v = Parse(Reg(k), "M", Doc(k, ls, FALSE), o1).v
Reported == Done /\ dup /\ fl = Fl0 =>
  LET fb(d) == Parse(Forbid[k], "M", Doc(k, ls, d), o1)
  IN fb(FALSE).x = "" /\ (k # 4 /\ k # 11 => Len(fb(TRUE).errs) = 1 + 2 * Len(ls) \/ Len(fb(TRUE).errs) = 2 * Len(ls))
\* C23: so do the options of the writing
RECURSIVE Ks(_)
Ks(e) == IF e.tag = "k" THEN <<e>> ELSE Flat(Map(Ks, e.kids))
NumOf(e, t) == Cardinality({i \in DOMAIN e.kids : e.kids[i].tag = t})
Kid1(e, t) == LET S == {i \in DOMAIN e.kids : e.kids[i].tag = t} IN IF S = {} THEN Nil ELSE Some(e.kids[MinOf(S)])
Writes(v) == v # NoneV \/ (~fl.se /\ ~fl.en)
Husk(i) == fl.se /\ IsEmptyEl(NewEl("k", <<>>)) /\ \A f \in {"n", "s"} : FieldOf(Subs(a.v)[i], f) = NoneV
Written == Done /\ ~fl.se =>
  /\ Len(Ks(w)) = Len(ls)
  /\ \A i \in DOMAIN ls :
       LET e == Ks(w)[i]  v == Subs(a.v)[i]
           on(f) == ~(fl.eu /\ f \notin v.s) /\ Writes(FieldOf(v, f))
           txt(f) == LET x == FieldOf(v, f) IN IF x = NoneV THEN "" ELSE SubSeq(x.v, 5, Len(x.v))
       IN /\ NumOf(e, "s") = BN(on("s")) /\ (on("s") => The(Kid1(e, "s")).text = txt("s"))
          /\ AHas(e.attrs, "n") = on("n") /\ (on("n") => AGet(e.attrs, "n") = Some(txt("n")))
          \* C20: computed values, after the fields
          /\ NumOf(e, "e") = BN(Writes(FieldOf(v, "s")) /\ ~fl.eu)
          /\ AHas(e.attrs, "c") = (Writes(FieldOf(v, "n")) /\ ~fl.eu)
          /\ (AHas(e.attrs, "c") => AGet(e.attrs, "c") = Some(txt("n")) /\ e.attrs[Len(e.attrs)][1] = "c")
          /\ (NumOf(e, "e") = 1 => e.kids[Len(e.kids)].tag = "e" /\ e.kids[Len(e.kids)].text = txt("s"))
Constant == Done => IF fl.eu THEN NumOf(w, "z") = 0 ELSE NumOf(w, "z") = 1 /\ w.kids[Len(w.kids)].tag = "z" /\ w.kids[Len(w.kids)].text = "a"
\* skip_empty: what carries nothing is not there, at any depth
RECURSIVE NoHusk(_)
NoHusk(e) == \A i \in DOMAIN e.kids : ~IsEmptyEl(e.kids[i]) /\ NoHusk(e.kids[i])
Skipped == Done /\ fl.se => NoHusk(w) /\ Len(Ks(w)) = Cardinality({i \in DOMAIN ls : ~Husk(i) \/ k \in {7, 12}})
=============================================================================
