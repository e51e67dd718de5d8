------------------------------ MODULE MC_Alias ------------------------------
(* Small scope: a field of every kind, with or without a name of its own, a   *)
(* serialization alias, a validation alias, excluded from writing, or no part *)
(* of the XML, beside another field before or after it; extra data ignored or *)
(* forbidden; documents with every subset of the elements and attributes that *)
(* the field might be looked for under, with good and bad values.             *)
(* All combinations.                                                          *)
(*                                                                            *)
(* The law: the class is the plain class with that name and without what is   *)
(* marked; the validation alias is only what the place of an error is called. *)
EXTENDS MCBase

Kinds == {"attr", "elem", "list", "wrap", "sub", "tagsub"}
Configs == {c \in [kind : Kinds, name : {"", "e"}, sa : {"", "s"}, va : {"", "v"}, mark : {"", "excl", "noxml"}, first : BOOLEAN, req : BOOLEAN, extra : {"ignore", "forbid"}] :
              \* what is no part of the XML needs a value all the same
              c.mark = "noxml" => ~c.req}
K == [Cls0("K") EXCEPT !.fields = <<WithNone([Fld0("p", OptT(IntT)) EXCEPT !.ent = <<Elem("p")>>])>>]
TK == [K EXCEPT !.name = "T", !.hn = "T", !.tag = <<"t">>]
\* name "": none given
Ent(c, name) == LET path == IF name = "" THEN <<>> ELSE <<name>> IN
  CASE c.kind = "attr" -> Ent0("attr", path)
    [] c.kind = "wrap" -> [Ent0("wrapped", <<"w">>) EXCEPT !.inner = <<Ent0("element", path)>>]
    [] OTHER -> Ent0("element", path)
Typ(c) == CASE c.kind = "list" -> ListT(IntT) [] c.kind = "sub" -> ModelT("K") [] c.kind = "tagsub" -> ModelT("T") [] OTHER -> IntT
FOf(c, name) == IF c.req THEN [Fld0("f", Typ(c)) EXCEPT !.ent = <<Ent(c, name)>>]
                ELSE WithNone([Fld0("f", OptT(Typ(c))) EXCEPT !.ent = <<Ent(c, name)>>])
Opt1(s) == IF s = "" THEN <<>> ELSE <<s>>
F(c) == [FOf(c, c.name) EXCEPT !.salias = Opt1(c.sa), !.valias = Opt1(c.va), !.excl = c.mark = "excl", !.noxml = c.mark = "noxml",
                               !.ent = IF c.mark = "noxml" THEN <<>> ELSE @]
G == WithNone([Fld0("g", OptT(StrT)) EXCEPT !.ent = <<Elem("g")>>])
M(c, f) == [Cls0("M") EXCEPT !.mode = <<"ordered">>, !.extra = <<c.extra>>, !.fields = IF c.first THEN f \o <<G>> ELSE <<G>> \o f]
Defs(c) == <<K, TK, M(c, <<F(c)>>)>>
\* the plain class: the name spelled out
Name(c) == IF c.name # "" THEN c.name ELSE IF c.kind = "tagsub" THEN "t" ELSE IF c.sa # "" THEN c.sa ELSE "f"
PlainDefs(c) == <<K, TK, M(c, IF c.mark = "noxml" THEN <<>> ELSE <<FOf(c, Name(c))>>)>>
Without(c) == <<K, TK, M(c, <<>>)>>

Names == <<"e", "s", "v", "f", "t", "g">>
\* which names are there, and with which value: 0 no, 1 good, 2 bad
Sets == {x \in [1 .. 6 -> 0 .. 2] : Cardinality({i \in 1 .. 6 : x[i] # 0}) <= (IF Deep THEN 3 ELSE 2) /\ x[6] # 2}
Txt(n) == IF n = 1 THEN "1" ELSE "a"
El(c, i, n) == IF c.kind \in {"sub", "tagsub"} /\ i # 6 THEN Node(Names[i], "", <<Node("p", Txt(n), <<>>)>>) ELSE Node(Names[i], Txt(n), <<>>)
Present(x) == Filter(<<1, 2, 3, 4, 5, 6>>, LAMBDA i : x[i] # 0)
Turned(c, s) == IF c.first THEN s ELSE [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
DocOf2(c, x) ==
  LET ps == Turned(c, Present(x))
      mine == Filter(ps, LAMBDA i : i # 6)
      gs == Map(LAMBDA i : Node("g", "1", <<>>), Filter(ps, LAMBDA i : i = 6))
      attrs == IF c.kind = "attr" THEN Map(LAMBDA i : <<Names[i], Txt(x[i])>>, mine) ELSE <<>>
      kids == CASE c.kind = "attr" -> gs
                [] c.kind = "wrap" -> LET w == <<Node("w", "", Map(LAMBDA i : El(c, i, x[i]), mine))>> IN IF c.first THEN w \o gs ELSE gs \o w
                [] OTHER -> Map(LAMBDA i : El(c, i, x[i]), ps)
  IN [Node("M", "", kids) EXCEPT !.attrs = attrs]

VARIABLES cfg, x, out
vars == <<cfg, x, out>>
B2(b) == IF b THEN 1 ELSE 0
KNum(k) == CASE k = "attr" -> 0 [] k = "elem" -> 1 [] k = "list" -> 2 [] k = "wrap" -> 3 [] k = "sub" -> 4 [] OTHER -> 5
Num(c) == (((((((KNum(c.kind) * 2 + B2(c.name = "")) * 2 + B2(c.sa = "")) * 2 + B2(c.va = "")) * 3 + (CASE c.mark = "" -> 0 [] c.mark = "excl" -> 1 [] OTHER -> 2)) * 2
           + B2(c.first)) * 2 + B2(c.req)) * 2) + B2(c.extra = "forbid")
XNum(s) == Fold(LAMBDA a, i : a * 3 + s[i], 0, <<1, 2, 3, 4, 5, 6>>)
Start == [i \in 1 .. 6 |-> 9]
Key(c) == IF c.va = "" THEN "f" ELSE "v"
Kw(c, v) == Fold(LAMBDA a, e : IF e[1] \notin v.s THEN a ELSE Append(a, <<(IF e[1] = "f" THEN Key(c) ELSE e[1]), e[2]>>), <<>>, v.f)
Sampled(c, s) == LET k == IF Deep THEN 2 ELSE 9 IN Cardinality({i \in 1 .. 6 : s[i] # 0}) <= 1 \/ (XNum(s) + Num(c)) % k = Seed % k
Init0 == cfg \in Configs /\ x = Start /\ out = <<>>
Next == /\ x = Start /\ cfg' = cfg
        /\ x' \in {s \in Sets : Sampled(cfg, s)}
        /\ out' = Parse(RegOf(Defs(cfg)), "M", DocOf2(cfg, x'), O0)
        /\ IF Turn(Num(cfg) * 5 + XNum(x') * 3)
           THEN Export(Defs(cfg), <<ParseEv("o", "M", DocOf2(cfg, x'))>>
                                  \o (IF out'.x = "" THEN <<SerEv("o", Fl0), SerEv("o", [Fl0 EXCEPT !.eu = TRUE]), NewEv("p", "M", Kw(cfg, out'.v)), SerEv("p", Fl0), RtEv("p", "o", Fl0)>> ELSE <<>>)) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == x # Start
Doc == DocOf2(cfg, x)
Val1(v, n) == LET e == AGet(v.f, n) IN Or(e, NoneV)
Plain1 == Parse(RegOf(PlainDefs(cfg)), "M", Doc, O0)
\* C22: the same values
Values == Done => /\ out.x = Plain1.x
                  /\ out.x = "" => \A n \in {"f", "g"} : Val1(out.v, n) = Val1(Plain1.v, n)
                  /\ out.x = "" => out.v.s = Plain1.v.s
\* the same errors, the field going by its validation alias
Errors == Done => Len(out.errs) = Len(Plain1.errs) /\
  \A i \in DOMAIN out.errs : LET e == Plain1.errs[i] IN
    out.errs[i] = IF e.loc[1] = "f" /\ e.type # "extra_forbidden" /\ cfg.va # "" THEN [e EXCEPT !.loc[1] = "v"] ELSE e
\* the same document, without what is marked
Bare(w) == [tag |-> w.tag, attrs |-> w.attrs, text |-> w.text, kids |-> Map(DocOf, w.kids)]
Written(fl) == LET a == WriteDoc(RegOf(Defs(cfg)), out.v, fl).w
                   ds == IF cfg.mark = "" THEN PlainDefs(cfg) ELSE Without(cfg)
                   v == IF cfg.mark = "" THEN Plain1.v ELSE Parse(RegOf(<<K, TK, M([cfg EXCEPT !.extra = "ignore"], <<>>)>>), "M", Doc, O0).v
               IN Bare(a) = Bare(WriteDoc(RegOf(ds), v, fl).w)
Same == Done /\ out.x = "" => Written(Fl0) /\ Written([Fl0 EXCEPT !.en = TRUE]) /\ Written([Fl0 EXCEPT !.eu = TRUE])
\* the other field is what it would be alone
Others == Done /\ out.x = "" /\ cfg.kind # "list" =>
  Val1(out.v, "g") = Val1(Parse(RegOf(<<K, TK, M([cfg EXCEPT !.extra = "ignore"], <<>>)>>), "M", Doc, O0).v, "g")
\* no part of the XML: whatever the document holds
NoPart == Done /\ cfg.mark = "noxml" /\ out.x = "" => Val1(out.v, "f") = NoneV /\ "f" \notin out.v.s
\* built by its validation alias, it is the same
Built == Done /\ out.x = "" =>
  LET r == DoNew(RegOf(Defs(cfg)), "M", Kw(cfg, out.v)) IN r.x = "" /\ r.v = out.v
=============================================================================
