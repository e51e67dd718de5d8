------------------------------ MODULE MC_Tagged -----------------------------
(* Small scope: a field discriminated by an attribute between two or three    *)
(* models that share their element name or have each its own (or all the one  *)
(* the field gives), one value or a list, in every search mode, the parent    *)
(* ignoring or forbidding the rest, another element after it; documents of up *)
(* to two (three) candidates of every name, discriminator and content, with a *)
(* stranger in any place.  All combinations.                                  *)
(*                                                                            *)
(* The law: the alternative whose name and discriminator the next eligible    *)
(* element has reads it as it would alone; nobody else is asked.              *)
EXTENDS MCBase

\* the alternatives: content that the others cannot read
Alt(n, ty, tag, x) ==
  [Cls0(n) EXCEPT !.tag = tag, !.extra = <<x>>,
   !.fields = <<[Fld0("kind", Prim(ty)) EXCEPT !.ent = <<Attr("kind")>>]>>
              \o (CASE n = "A1" -> <<[Fld0("p", IntT) EXCEPT !.ent = <<Elem("p")>>]>>
                    [] OTHER -> <<WithNone([Fld0("p", OptT(StrT)) EXCEPT !.ent = <<Elem("p")>>])>>)]
Types == <<<<"k1", "A1">>, <<"k2", "A2">>>>
TU(order) == [k |-> "tagged", disc |-> "kind", of |-> IF order = 1 THEN Types ELSE <<Types[2], Types[1]>>, strtags |-> TRUE]
\* names: "own" each alternative has its own, "same" both the same, "field" the field gives one
Names == {"own", "same", "field"}
Tags(names) == CASE names = "own" -> <<"a", "b">> [] names = "same" -> <<"k", "k">> [] names = "field" -> <<"f", "f">>
Q == WithNone([Fld0("q", OptT(StrT)) EXCEPT !.ent = <<Elem("q")>>])
Parent(t, c) ==
  [Cls0("M") EXCEPT !.extra = <<c.extra>>, !.mode = <<c.mode>>,
   !.fields = <<WithNone([Fld0("f", OptT(IF c.many THEN ListT(t) ELSE t)) EXCEPT
                          !.ent = IF c.names = "field" THEN <<Elem("f")>> ELSE <<>>]), Q>>]
Alts(c) == LET own == CASE c.names = "own" -> <<"a", "b">> [] OTHER -> <<"k", "k">>
           IN <<Alt("A1", "lk1", <<own[1]>>, c.extra), Alt("A2", "lk2", <<own[2]>>, c.extra)>>
Defs(c) == Alts(c) \o <<Parent(TU(c.order), c)>>
Single(c, i) == Alts(c) \o <<Parent(ModelT(Types[i][2]), c)>>
Configs == [order : {1, 2}, names : Names, many : BOOLEAN, mode : {"strict", "ordered", "unordered"}, extra : {"ignore", "forbid"}]

P(s) == Node("p", s, <<>>)
WithA(n, al) == [n EXCEPT !.attrs = al]
\* [t: which of the two names (3: a name of nobody), d: discriminator, k: content]
Cands == [t : {1, 2}, d : {"k1", "k2", "z", "-"}, k : {"", "1", "a"}] \cup [t : {3}, d : {"k1"}, k : {"1"}] \cup [t : {4}, d : {"-"}, k : {""}]
ElOf(c, x) ==
  IF x.t = 4 THEN Node("q", "q0", <<>>)
  ELSE WithA(Node(IF x.t = 3 THEN "n" ELSE Tags(c.names)[x.t], "", IF x.k = "" THEN <<>> ELSE <<P(x.k)>>),
             IF x.d = "-" THEN <<>> ELSE <<<<"kind", x.d>>>>)
CandsOf(c) == {x \in Cands : x.t = 2 => c.names = "own"}
DocOf2(c, d) == Node("M", "", [i \in DOMAIN d |-> ElOf(c, d[i])] \o <<Node("q", "z", <<>>)>>)

Start == <<[t |-> 0, d |-> "", k |-> ""]>>
VARIABLES cfg, d, out
vars == <<cfg, d, out>>
B2(b) == IF b THEN 1 ELSE 0
Num(c) == (((c.order * 3 + Tag2Num(c.names)) * 2 + B2(c.many)) * 3 + (CASE c.mode = "strict" -> 0 [] c.mode = "ordered" -> 1 [] OTHER -> 2)) * 2
          + B2(c.extra = "forbid")
XNum(x) == x.t * 12 + (CASE x.d = "k1" -> 0 [] x.d = "k2" -> 1 [] x.d = "z" -> 2 [] OTHER -> 3) * 3 + (CASE x.k = "" -> 0 [] x.k = "1" -> 1 [] OTHER -> 2)
Sampled(s) == Len(s) <= (IF Deep THEN 2 ELSE 1) \/ Fold(LAMBDA acc, x : acc * 53 + XNum(x), 7, s) % 5 = Seed % 5
Init0 == cfg \in Configs /\ d = Start /\ out = <<>>
Next == /\ d = Start /\ cfg' = cfg
        /\ d' \in {s \in Seqs(CandsOf(cfg), 0, 2) : Sampled(s)}
        /\ out' = Parse(RegOf(Defs(cfg)), "M", DocOf2(cfg, d'), O0)
        /\ IF Turn(Num(cfg) * 5 + Fold(LAMBDA acc, x : (acc * 31 + XNum(x)) % 10007, 3, d') * 3)
           THEN Export(Defs(cfg), <<ParseEv("o", "M", DocOf2(cfg, d'))>>) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == d # Start
Kids == [i \in DOMAIN d |-> ElOf(cfg, d[i])] \o <<Node("q", "z", <<>>)>>
\* alternatives in the order they are declared
Order == IF cfg.order = 1 THEN <<1, 2>> ELSE <<2, 1>>
Disc(i) == Types[i][1]
\* the element alternative i looks at when the search begins after the first `from` ones: 0 none
Eligible(i, from) ==
  LET name == Tags(cfg.names)[i]
      S == {p \in from + 1 .. Len(Kids) : Kids[p].tag = name}
  IN IF S = {} THEN 0 ELSE IF cfg.mode = "strict" THEN (IF from + 1 \in S THEN from + 1 ELSE 0) ELSE MinOf(S)
KindOf(p) == AGet(Kids[p].attrs, "kind")
Matches(i, from) == Eligible(i, from) # 0 /\ KindOf(Eligible(i, from)) = Some(Disc(i))
\* <<alternative, element>>, or <<>>
Pick(from) == LET S == {j \in {1, 2} : Matches(Order[j], from)}
              IN IF S = {} THEN <<>> ELSE <<Order[MinOf(S)], Eligible(Order[MinOf(S)], from)>>
\* C09: one value: what the alternative that matches would read if it were the only type; nothing at all when none does
OneLaw == Done /\ ~cfg.many /\ Pick(0) # <<>> =>
  LET r == Parse(RegOf(Single(cfg, Pick(0)[1])), "M", DocOf2(cfg, d), O0)
  IN out.x = r.x /\ out.v = r.v /\ out.errs = r.errs
NoneLaw == Done /\ ~cfg.many /\ Pick(0) = <<>> =>
  /\ out.x = "" => out.v.f[1][2] = NoneV
  \* nothing was taken: under forbid whatever has something in it is reported
  /\ cfg.extra = "forbid" => \A p \in DOMAIN Kids : Kids[p].tag # "q" /\ (Kids[p].kids # <<>> \/ Kids[p].attrs # <<>>) =>
                               \E e \in Range(out.errs) : e.loc[1] = Kids[p].tag
  /\ \A e \in Range(out.errs) : e.type = "extra_forbidden"
\* C07, C09: a list takes one element after the other as long as one matches (elements as they stand when the mode is strict or ordered)
RECURSIVE Picks(_)
Picks(from) == LET p == Pick(from) IN IF p = <<>> THEN <<>> ELSE <<p>> \o Picks(p[2])
Alone(p) == Parse(RegOf(<<Alts(cfg)[p[1]]>>), Types[p[1]][2], [Kids[p[2]] EXCEPT !.tag = RegOf(Defs(cfg))[Types[p[1]][2]].el], O0)
ManyLaw == Done /\ cfg.many /\ cfg.mode # "unordered" =>
  LET ps == Picks(0)  bad == {j \in DOMAIN ps : Alone(ps[j]).x # ""} IN
  IF bad # {}
  THEN out.x = "V" /\ {j \in 1 .. 3 : \E e \in Range(out.errs) : e.loc[1] = "f" /\ Len(e.loc) > 1 /\ e.loc[2] = IdxTok(j - 1)} = bad
  ELSE out.x = "" => out.v.f[1][2] = IF ps = <<>> THEN NoneV ELSE [k |-> "l", t |-> "list", xs |-> [j \in DOMAIN ps |-> Alone(ps[j]).v]]
\* a value of the field is of the class of its discriminator
ClassLaw == Done /\ out.x = "" =>
  LET v == out.v.f[1][2]  vs == IF v.k = "l" THEN v.xs ELSE IF v.k = "m" THEN <<v>> ELSE <<>>
  IN \A j \in DOMAIN vs : vs[j].f[1][2] = PrimV("str:" \o (IF vs[j].c = "A1" THEN "k1" ELSE "k2"))
\* the order of the alternatives matters only where both match
OrderLaw == Done /\ ~(Matches(1, 0) /\ Matches(2, 0)) /\ ~cfg.many =>
  LET r == Parse(RegOf(Defs([cfg EXCEPT !.order = 3 - @])), "M", DocOf2(cfg, d), O0) IN out.x = r.x /\ out.v = r.v /\ Range(out.errs) = Range(r.errs)
=============================================================================
