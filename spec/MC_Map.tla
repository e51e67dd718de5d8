------------------------------- MODULE MC_Map -------------------------------
(* Small scope: a mapping of texts or integers, or a typed dictionary, over   *)
(* the attributes of the model's own element, of an element of its own, of    *)
(* one inside a wrapper or of a list of elements; with or without namespaced  *)
(* attributes and a namespace; an attribute field before or after it, or      *)
(* none; documents with every set of up to three attributes out of a menu of  *)
(* plain and qualified names, good and bad values.  All combinations.         *)
(*                                                                            *)
(* The law: a mapping is the set of the attributes nobody took before.        *)
EXTENDS MCBase

Kinds == {"own", "elem", "wrap", "list", "sub"}
Configs == {c \in [kind : Kinds, typ : {"str", "int", "td"}, at : BOOLEAN, ns : {<<>>, <<"p">>}, sib : {"none", "before", "after"}, extra : {"ignore", "forbid"}] :
              c.sib = "none" \/ c.kind \in {"own", "sub"}}
TypOf(c) == CASE c.typ = "str" -> [k |-> "dict", key |-> StrT, of |-> StrT] [] c.typ = "int" -> [k |-> "dict", key |-> StrT, of |-> IntT]
              [] OTHER -> [k |-> "td", forbid |-> FALSE, n |-> "TDM", of |-> <<<<"k", IntT, TRUE>>, <<"m", StrT, FALSE>>>>]
NsE(c, e) == [e EXCEPT !.ns = c.ns]
E1(c) == CASE c.kind \in {"own", "sub"} -> <<>> [] c.kind = "wrap" -> <<NsE(c, WrapIn("w", Elem("e")))>> [] OTHER -> <<NsE(c, Elem("e"))>>
F(c) == LET t == IF c.kind = "list" THEN ListT(TypOf(c)) ELSE TypOf(c)
        IN [Fld0("f", t) EXCEPT !.ent = E1(c)]
N(c) == WithNone([Fld0("n", OptT(IntT)) EXCEPT !.ent = <<Attr("n")>>])
Fs(c) == CASE c.sib = "none" -> <<F(c)>> [] c.sib = "before" -> <<N(c), F(c)>> [] OTHER -> <<F(c), N(c)>>
Own(c, name) == [Cls0(name) EXCEPT !.ns = IF c.kind \in {"own", "sub"} THEN c.ns ELSE <<>>, !.nsmap = <<<<<<"p", "u:1">>>>>>,
                                   !.nsattrs = <<c.at>>, !.extra = <<c.extra>>, !.fields = Fs(c)]
Defs(c) == IF c.kind = "sub"
           THEN <<Own(c, "S"), [Cls0("M") EXCEPT !.extra = <<c.extra>>, !.fields = <<[Fld0("s", ModelT("S")) EXCEPT !.ent = <<[Elem("s") EXCEPT !.ns = <<>>]>>]>>]>>
           ELSE <<Own(c, "M")>>

\* names, with the values an entry may have
AttrNames == <<"n", "k", "m", "{u:1}k", "{u:1}m", "{u:2}z">>
Vals == <<"1", "a", "">>
Bit(s, i) == s[i]
\* an attribute set: for each name 0 (not there) or the number of its value
Sets == {s \in [1 .. 6 -> 0 .. 3] : Cardinality({i \in 1 .. 6 : s[i] # 0}) <= 3}
AttrsOf(s) == Fold(LAMBDA acc, i : IF s[i] = 0 THEN acc ELSE Append(acc, <<AttrNames[i], Vals[s[i]]>>), <<>>, <<1, 2, 3, 4, 5, 6>>)
A2(s) == [Node("e", "", <<>>) EXCEPT !.attrs = AttrsOf(s)]
UriN(c) == IF c.ns = <<>> THEN "" ELSE "{u:1}"
\* a second item, for lists
Other == [Node("e", "", <<>>) EXCEPT !.attrs = <<<<"k", "2">>>>]
DocOf2(c, s) ==
  LET e == [A2(s) EXCEPT !.tag = UriN(c) \o "e"]
  IN CASE c.kind = "own" -> [e EXCEPT !.tag = UriN(c) \o "M"]
       [] c.kind = "elem" -> Node("M", "", <<e>>)
       [] c.kind = "wrap" -> Node("M", "", <<Node(UriN(c) \o "w", "", <<e>>)>>)
       [] c.kind = "list" -> Node("M", "", <<e, [Other EXCEPT !.tag = e.tag]>>)
       [] OTHER -> Node("M", "", <<[e EXCEPT !.tag = UriN(c) \o "s"]>>)
WrapDoc(c) == LET R == RegOf(Defs(c)) IN R["M"].el

VARIABLES cfg, s, out
vars == <<cfg, s, out>>
SNum(x) == Fold(LAMBDA acc, i : acc * 4 + x[i], 0, <<1, 2, 3, 4, 5, 6>>)
KNum(k) == CASE k = "own" -> 1 [] k = "elem" -> 2 [] k = "wrap" -> 3 [] k = "list" -> 4 [] OTHER -> 5
Num(c) == ((((KNum(c.kind) * 3 + (CASE c.typ = "str" -> 0 [] c.typ = "int" -> 1 [] OTHER -> 2)) * 2 + (IF c.at THEN 1 ELSE 0)) * 2 + Len(c.ns)) * 3
           + (CASE c.sib = "none" -> 0 [] c.sib = "before" -> 1 [] OTHER -> 2)) * 2 + (IF c.extra = "forbid" THEN 1 ELSE 0)
Start == [i \in 1 .. 6 |-> 9]
Few(x) == LET k == IF Deep THEN 2 ELSE 11 IN Cardinality({i \in 1 .. 6 : x[i] # 0}) <= 1 \/ (SNum(x) + Num(cfg)) % k = Seed % k
Init0 == cfg \in Configs /\ s = Start /\ out = <<>>
Next == /\ s = Start /\ cfg' = cfg
        /\ s' \in {x \in Sets : Few(x)}
        /\ out' = Parse(RegOf(Defs(cfg)), "M", DocOf2(cfg, s'), O0)
        /\ IF Turn(Num(cfg) * 5 + SNum(s') * 3)
           THEN Export(Defs(cfg), <<ParseEv("o", "M", DocOf2(cfg, s'))>>
                                  \o (IF out'.x = "" THEN <<SerEv("o", Fl0), SerEv("o", [Fl0 EXCEPT !.se = TRUE]), RtEv("o", "p", Fl0)>> ELSE <<>>)) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == s # Start
Ok == Done /\ out.x = ""
Pairs == {i \in 1 .. 6 : s[i] # 0}
Local(i) == CASE i = 4 -> "k" [] i = 5 -> "m" [] i = 6 -> "z" [] OTHER -> AttrNames[i]
SibName == IF cfg.at /\ cfg.ns # <<>> THEN "{u:1}n" ELSE "n"
Taken == IF cfg.sib = "before" /\ SibName = "n" THEN {1} ELSE {}
Mine == Pairs \ Taken
NameOf(i) == IF cfg.at THEN Local(i) ELSE AttrNames[i]
Clash == \E i, j \in Mine : i # j /\ NameOf(i) = NameOf(j)
Good2(i) == cfg.typ = "str" \/ Vals[s[i]] = "1" \/ (cfg.typ = "td" /\ NameOf(i) # "k")
Kept(i) == cfg.typ # "td" \/ NameOf(i) \in {"k", "m"}
ValOf(i) == IF cfg.typ = "int" \/ (cfg.typ = "td" /\ NameOf(i) = "k") THEN "int:" \o Vals[s[i]] ELSE "str:" \o Vals[s[i]]
FieldsOf(v) == IF cfg.kind = "sub" THEN v.f[1][2].f ELSE v.f
Get(v, n) == The(AGet(FieldsOf(v), n))
Map1(v) == IF cfg.kind = "list" THEN v.xs[1] ELSE v
\* C24: one entry per attribute nobody took before, by its name
Read == Ok /\ ~Clash => LET m == Map1(Get(out.v, "f")) IN
  /\ m.k = "d"
  /\ Range(m.kv) = {<<PrimV("str:" \o NameOf(i)), PrimV(ValOf(i))>> : i \in {j \in Mine : Kept(j)}}
  /\ Len(m.kv) = Cardinality({i \in Mine : Kept(i)})
\* read or refused
Refused == Done /\ ~Clash =>
  ((out.x = "") <=> (\A i \in Mine : Kept(i) => Good2(i)) /\ (cfg.typ = "td" => \E i \in Mine : NameOf(i) = "k")
                    \* a typed dictionary refuses what the model around it refuses
                    /\ (cfg.typ = "td" /\ cfg.extra = "forbid" => \A i \in Mine : Kept(i))
                    /\ (Pairs \cap Taken # {} => Vals[s[1]] = "1"))
\* C15: every bad entry under its key
Where == Done /\ ~Clash =>
  LET keys == {e.loc[Len(e.loc)] : e \in Range(out.errs)}
      bad == {NameOf(i) : i \in {j \in Mine : Kept(j) /\ ~Good2(j)}}
  IN bad \subseteq keys
\* C06: the attribute field has its attribute exactly when it comes first
Sibling == Ok /\ cfg.sib # "none" => (Get(out.v, "n") # NoneV <=> Pairs \cap Taken # {})
\* C05: attributes are never left over where there is a mapping
NoneLeft == Done /\ cfg.typ # "td" => \A e \in Range(out.errs) : e.type # "extra_forbidden"
\* C24: what is written is the entries, and the other attribute as it was
RECURSIVE Leaf(_)
Leaf(w) == IF w.kids = <<>> THEN w ELSE Leaf(w.kids[1])
Doc == WriteDoc(RegOf(Defs(cfg)), out.v, [Fl0 EXCEPT !.en = TRUE]).w
Pre == IF cfg.at /\ cfg.ns # <<>> THEN "{u:1}" ELSE ""
Written == Ok /\ ~Clash =>
  Range(Leaf(Doc).attrs) = {<<Pre \o NameOf(i), Vals[s[i]]>> : i \in {j \in Mine : Kept(j)}}
                           \cup (IF Pairs \cap Taken # {} THEN {<<SibName, Vals[s[1]]>>} ELSE {})
\* C01: read again it is the same
Back == Ok /\ cfg.sib = "none" => LET r == Parse(RegOf(Defs(cfg)), "M", DocOf(Doc), O0) IN r.x = "" /\ r.v = out.v
=============================================================================
