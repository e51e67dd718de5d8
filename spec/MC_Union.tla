------------------------------- MODULE MC_Union -----------------------------
(* Small scope: a field whose type is a union of two or three models out of a *)
(* menu (every order of them), optional or a list, then another element; up   *)
(* to two candidates in the document with every content of a menu; the parent *)
(* ignores or forbids what it does not know.  All combinations.               *)
(*                                                                            *)
(* The law: a union reads exactly what the first of its alternatives that can *)
(* read the element would read alone, and leaves exactly what that one leaves.*)
EXTENDS MCBase

Shape(n) ==
  LET req(f, t, e) == [Fld0(f, t) EXCEPT !.ent = <<e>>]
      opt(f, t, e) == WithNone([Fld0(f, OptT(t)) EXCEPT !.ent = <<e>>])
  IN CASE n = "P" -> [Cls0("P") EXCEPT !.fields = <<req("p", StrT, Elem("p"))>>]
       [] n = "I" -> [Cls0("I") EXCEPT !.fields = <<req("p", IntT, Elem("p")), opt("q", StrT, Elem("q"))>>]
       [] n = "N" -> [Cls0("N") EXCEPT !.fields = <<req("n", IntT, Attr("n"))>>, !.extra = <<"forbid">>]
       [] n = "Q" -> [Cls0("Q") EXCEPT !.fields = <<req("q", StrT, Elem("q"))>>, !.mode = <<"unordered">>, !.extra = <<"forbid">>]
       [] n = "O" -> [Cls0("O") EXCEPT !.fields = <<opt("n", IntT, Attr("n")), opt("q", IntT, Elem("q"))>>]
Names == {"P", "I", "N", "Q", "O"}
Menu == <<"P", "I", "N", "Q", "O">>
Alts == {a \in Seqs(Names, 2, IF Deep THEN 3 ELSE 2) : \A i, j \in DOMAIN a : i # j => a[i] # a[j]}
        \cup {<<"N", "I", "P">>, <<"I", "Q", "O">>, <<"Q", "N", "I">>, <<"P", "O", "N">>}
WithA(n, al) == [n EXCEPT !.attrs = al]
P(s) == Node("p", s, <<>>)
Q(s) == Node("q", s, <<>>)
Contents == <<Node("k", "", <<>>), Node("k", "", <<P("1")>>), Node("k", "", <<P("a")>>), Node("k", "", <<P("1"), Q("a")>>),
              Node("k", "", <<P("a"), Q("1")>>), Node("k", "", <<Q("1"), P("1")>>), Node("k", "", <<Q("a")>>),
              WithA(Node("k", "", <<>>), <<<<"n", "1">>>>), WithA(Node("k", "", <<>>), <<<<"n", "a">>>>),
              WithA(Node("k", "", <<P("1")>>), <<<<"n", "1">>>>), WithA(Node("k", "", <<Q("a"), Q("1")>>), <<<<"n", "2">>>>)>>

Field(t) == WithNone([Fld0("f", OptT(t)) EXCEPT !.ent = <<Elem("k")>>])
G == WithNone([Fld0("g", OptT(StrT)) EXCEPT !.ent = <<Elem("q")>>])
Parent(t, x) == [Cls0("M") EXCEPT !.extra = <<x>>, !.fields = <<Field(t), G>>]
Defs(c) == Map(Shape, Menu) \o <<Parent(IF c.many THEN ListT(UnionT(Map(ModelT, c.alts))) ELSE UnionT(Map(ModelT, c.alts)), c.extra)>>
Configs == [alts : Alts, many : BOOLEAN, extra : {"ignore", "forbid"}]
Docs == Seqs(DOMAIN Contents, 0, 2)
DocOf2(d) == Node("M", "", [i \in DOMAIN d |-> Contents[d[i]]] \o <<Q("z")>>)

VARIABLES cfg, d, out
vars == <<cfg, d, out>>
Num(c) == Fold(LAMBDA acc, x : acc * 5 + (CHOOSE i \in DOMAIN Menu : Menu[i] = x), IF c.many THEN 3 ELSE 1, c.alts) * 2 + (IF c.extra = "forbid" THEN 1 ELSE 0)
Init0 == cfg \in Configs /\ d = <<0>> /\ out = <<>>
Next == /\ d = <<0>> /\ cfg' = cfg
        /\ d' \in Docs
        /\ out' = Parse(RegOf(Defs(cfg)), "M", DocOf2(d'), O0)
        /\ IF Turn(Num(cfg) * 5 + Fold(LAMBDA acc, x : acc * 11 + x, 3, d') * 3)
           THEN Export(Defs(cfg), <<ParseEv("o", "M", DocOf2(d'))>>) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == d # <<0>>
\* the parent with one alternative in the place of the union
Single(c, a) == Map(Shape, Menu) \o <<Parent(IF c.many THEN ListT(ModelT(a)) ELSE ModelT(a), c.extra)>>
\* can alternative a read the content?  On its own, as a document
Reads(a, k) == Parse(RegOf(<<Shape(a)>>), a, [Contents[k] EXCEPT !.tag = a], O0)
Good1(c, k) == {i \in DOMAIN c.alts : Reads(c.alts[i], k).x = ""}
Pick(c, k) == IF Good1(c, k) = {} THEN 0 ELSE MinOf(Good1(c, k))
\* C08: one candidate: the parent reads what it would read with that alternative alone
OneLaw == Done /\ ~cfg.many /\ Len(d) >= 1 /\ Pick(cfg, d[1]) # 0 =>
  LET r == Parse(RegOf(Single(cfg, cfg.alts[Pick(cfg, d[1])])), "M", DocOf2(d), O0)
  IN out.x = r.x /\ out.v = r.v /\ out.errs = r.errs
\* C08: no alternative: the errors of each, under its name, in order
NoneLaw == Done /\ ~cfg.many /\ Len(d) >= 1 /\ Pick(cfg, d[1]) = 0 =>
  /\ out.x = "V"
  /\ Map(LAMBDA e : [e EXCEPT !.line = 0], out.errs)
     = Map(LAMBDA e : [e EXCEPT !.line = 0], Flat(Map(LAMBDA a : Prefix(<<"f", a>>, Reads(a, d[1]).errs), cfg.alts)))
\* C07, C08: in a collection every item is decided for itself
Items2 == [i \in DOMAIN d |-> Pick(cfg, d[i])]
ManyLaw == Done /\ cfg.many /\ cfg.extra = "ignore" =>
  IF \E i \in DOMAIN d : Items2[i] = 0
  THEN /\ out.x = "V"
       /\ {e.loc[2] : e \in Range(out.errs)} = {IdxTok(i - 1) : i \in {j \in DOMAIN d : Items2[j] = 0}}
  ELSE /\ out.x = ""
       /\ out.v.f[1][2] = IF d = <<>> THEN NoneV
                          ELSE [k |-> "l", t |-> "list", xs |-> [i \in DOMAIN d |-> Reads(cfg.alts[Items2[i]], d[i]).v]]
       /\ out.v.f[2][2] = PrimV("str:z")
\* the rest of the document is read as if the union were not there
RestLaw == Done /\ ~cfg.many /\ Len(d) = 1 /\ out.x = "" => out.v.f[2][2] = PrimV("str:z")
\* an alternative that comes later never changes what an earlier one reads
PrefixLaw == Done /\ ~cfg.many /\ Len(cfg.alts) = 3 /\ Len(d) = 1 /\ Pick(cfg, d[1]) \in {1, 2} =>
  LET r == Parse(RegOf(Defs([cfg EXCEPT !.alts = SubSeq(cfg.alts, 1, 2)])), "M", DocOf2(d), O0) IN out.v = r.v /\ out.errs = r.errs
=============================================================================
