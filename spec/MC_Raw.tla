------------------------------- MODULE MC_Raw -------------------------------
(* Small scope: one or two fields holding whole elements (one, optional, a    *)
(* list, a pair, inside wrappers), in each search mode, with or without a     *)
(* namespace, beside a text field; documents of up to two (three) elements of *)
(* that name, of another namespace or another name, with contents from a menu *)
(* of texts, attributes, qualified names, nested elements and tails.          *)
(*                                                                            *)
(* The law: a raw field gets the element a text field would get, the whole of *)
(* it, and writes the same element at the same place.                         *)
EXTENDS MCBase

RawT == [k |-> "raw"]
Shapes == {"one", "opt", "list", "pair", "wrap", "wraplist", "two"}
Names == {"", "p"}
Configs == [shape : Shapes, ns : Names, mode : {"strict", "ordered", "unordered"}, extra : {"ignore", "forbid"}]

El(c) == [Elem("r") EXCEPT !.ns = IF c.ns = "" THEN <<>> ELSE <<c.ns>>]
Wr(c, path) == WrapIn(path, El(c))
Opt1(n, t, e) == WithNone([Fld0(n, OptT(t)) EXCEPT !.ent = <<e>>])
Req1(n, t, e) == [Fld0(n, t) EXCEPT !.ent = <<e>>]
Q == Opt1("q", StrT, Elem("q"))
\* the same class with another type in the place of the raw one
Fields(c, t) ==
  CASE c.shape = "one" -> <<Req1("f", t, El(c)), Q>>
    [] c.shape = "opt" -> <<Opt1("f", t, El(c)), Q>>
    [] c.shape = "list" -> <<Opt1("f", ListT(t), El(c)), Q>>
    [] c.shape = "pair" -> <<Opt1("f", [k |-> "tuple", of |-> <<t, t>>], El(c)), Q>>
    [] c.shape = "wrap" -> <<Opt1("f", t, Wr(c, "w")), Q>>
    [] c.shape = "wraplist" -> <<Opt1("f", ListT(t), Wr(c, "w/v")), Q>>
    [] c.shape = "two" -> <<Opt1("f", t, El(c)), Q, Opt1("g", t, El(c))>>
Cls(c, t) == [Cls0("M") EXCEPT !.mode = <<c.mode>>, !.extra = <<c.extra>>, !.raws = TRUE, !.nsmap = <<<<<<"p", "u:1">>>>>>,
                               !.fields = Fields(c, t)]
Defs(c) == <<Cls(c, RawT)>>

Uri(c) == IF c.ns = "" THEN "" ELSE "{u:1}"
WithA(n, al) == [n EXCEPT !.attrs = al]
\* contents, always with a text that tells which it is
Contents(tag, id) == <<
  Node(tag, id, <<>>),
  WithA(Node(tag, id, <<>>), <<<<"n", "1">>, <<"{u:2}m", "a">>>>),
  Node(tag, id, <<[Node("x", "a", <<>>) EXCEPT !.tail = "b"], Node(tag, "1", <<>>), Node("x", "", <<>>)>>),
  Node(tag, id, <<WithA(Node("{u:3}y", "", <<Node("z", "x y", <<>>)>>), <<<<"{u:1}k", "">>>>), [Node("y", "", <<>>) EXCEPT !.tail = "2"]>>) >>
\* 1..4: the field's name with a content, 5: the name without the namespace (or in one), 6: q, 7: another
Kid(c, k, i) ==
  LET id == "t" \o ToString(i)
  IN CASE k <= 4 -> [Contents(Uri(c) \o "r", id)[k] EXCEPT !.tail = IF k = 3 THEN "a" ELSE ""]
       [] k = 5 -> Node(IF c.ns = "" THEN "{u:1}r" ELSE "r", id, <<>>)
       [] k = 6 -> Node("q", id, <<>>)
       [] OTHER -> Node("x", id, <<>>)
Kids(c, d) == [i \in DOMAIN d |-> Kid(c, d[i], i)]
Skel(k) == [k EXCEPT !.attrs = <<>>, !.kids = <<>>, !.tail = ""]
Place(c, ks) == Node("M", "", CASE c.shape = "wrap" -> <<Node("w", "", ks), Node("q", "t9", <<>>)>>
                                [] c.shape = "wraplist" -> <<Node("w", "", <<Node("v", "", ks)>>), Node("q", "t9", <<>>)>>
                                [] OTHER -> ks)
DocOf2(c, d) == Place(c, Kids(c, d))

VARIABLES cfg, d, out, skel
vars == <<cfg, d, out, skel>>
SNum(s) == CASE s = "one" -> 1 [] s = "opt" -> 2 [] s = "list" -> 3 [] s = "pair" -> 4 [] s = "wrap" -> 5 [] s = "wraplist" -> 6 [] OTHER -> 7
MNum(m) == CASE m = "strict" -> 0 [] m = "ordered" -> 1 [] OTHER -> 2
Num(c) == ((SNum(c.shape) * 2 + (IF c.ns = "" THEN 0 ELSE 1)) * 3 + MNum(c.mode)) * 2 + (IF c.extra = "forbid" THEN 1 ELSE 0)
DNum(s) == Fold(LAMBDA acc, x : acc * 8 + x, 1, s)
Init0 == cfg \in Configs /\ d = <<0>> /\ out = <<>> /\ skel = <<>>
Next == /\ d = <<0>> /\ cfg' = cfg
        /\ d' \in {s \in Seqs(1 .. 7, 0, 3) : Len(s) <= 2 \/ DNum(s) % (IF Deep THEN 2 ELSE 11) = Seed % (IF Deep THEN 2 ELSE 11)}
        /\ out' = Parse(RegOf(Defs(cfg)), "M", DocOf2(cfg, d'), O0)
        /\ skel' = Parse(RegOf(<<Cls(cfg, StrT)>>), "M", Place(cfg, Map(Skel, Kids(cfg, d'))), O0)
        \* what came of a tree is independent of the tree
        /\ LET Again(o) == [ParseEv(o, "M", DocOf2(cfg, d')) EXCEPT !.src = "s"] IN
           IF Turn(Num(cfg) * 5 + DNum(d') * 3)
           THEN Export(Defs(cfg), <<ParseEv("o", "M", DocOf2(cfg, d'))>>
                                  \o (IF out'.x = "" THEN <<SerEv("o", Fl0), SerEv("o", [Fl0 EXCEPT !.se = TRUE]), RtEv("o", "p", Fl0),
                                             Again("o"), [e |-> "poke", o |-> "o"], Again("o2"), SerEv("o", Fl0)>> ELSE <<>>)) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == d # <<0>>
Ok == Done /\ out.x = ""
\* the element a text stands for
PosOf(v) == CHOOSE i \in DOMAIN d : v = PrimV("str:t" \o ToString(i))
RECURSIVE Whole(_)
Whole(v) == CASE v.k = "l" -> [v EXCEPT !.xs = Map(Whole, @)]
              [] v.k = "none" -> v
              [] OTHER -> [k |-> "raw", t |-> Plain(Kids(cfg, d)[PosOf(v)])]
IsRaw(n) == n \in {"f", "g"}
\* C18: the element a text field would get, and the whole of it
SameElement == Done =>
  /\ out.x = "" => skel.x = ""
  /\ (skel.x = "" /\ (cfg.extra = "ignore" \/ out.x = "")) =>
     /\ out.x = ""
     /\ \A i \in DOMAIN out.v.f : LET n == out.v.f[i][1]  w == skel.v.f[i][2] IN
          out.v.f[i][2] = IF IsRaw(n) THEN Whole(w) ELSE w
\* C05, C18: all of it is consumed: errors are those of the document of texts, and what hangs below elements nobody took
Taken == LET S(v) == IF v.k = "l" THEN Range(v.xs) ELSE {v}
         IN UNION {IF IsRaw(skel.v.f[i][1]) THEN {PosOf(v) : v \in S(skel.v.f[i][2]) \ {NoneV}} ELSE {} : i \in DOMAIN skel.v.f}
Relax == Parse(RegOf(<<[Cls(cfg, StrT) EXCEPT !.extra = <<"ignore">>]>>), "M", Place(cfg, Map(Skel, Kids(cfg, d))), O0)
AllTaken == Done /\ Relax.x = "" /\ skel.x = "" => out.x = ""
Errors == Done /\ out.x # "" => skel.x = out.x /\ {e \in Range(out.errs) : Len(e.loc) <= 1} = {e \in Range(skel.errs) : Len(e.loc) <= 1}
\* C18: written as it came, where a text would be written
RECURSIVE Bare(_)
Bare(n) == [tag |-> n.tag, text |-> n.text, tail |-> n.tail, attrs |-> Range(n.attrs), kids |-> Map(Bare, n.kids)]
RECURSIVE Leaves(_)
Leaves(n) == IF n.tag \in {"M", "w", "v"} THEN Flat(Map(Leaves, n.kids)) ELSE <<n>>
Written == Ok =>
  LET a == Leaves(WriteDoc(RegOf(Defs(cfg)), out.v, [Fl0 EXCEPT !.en = TRUE]).w)
      b == Leaves(WriteDoc(RegOf(<<Cls(cfg, StrT)>>), skel.v, [Fl0 EXCEPT !.en = TRUE]).w)
      At(n) == PosOf(PrimV("str:" \o n.text))
      ne(s) == Filter(s, LAMBDA n : n.text # "" \/ n.tag = "q")
  IN /\ Len(a) = Len(ne(b))
     /\ \A i \in DOMAIN a : Bare(a[i]) = IF a[i].tag = "q" THEN Bare(ne(b)[i]) ELSE Bare(Kids(cfg, d)[At(ne(b)[i])])
\* C01, C18: and read again it is the same
Back == Ok => LET r == Parse(RegOf(Defs(cfg)), "M", DocOf(WriteDoc(RegOf(Defs(cfg)), out.v, [Fl0 EXCEPT !.en = TRUE]).w), O0)
              IN r.x = "" /\ r.v = out.v
=============================================================================
