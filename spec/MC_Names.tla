------------------------------ MODULE MC_Names -----------------------------
(* Small scope: a base class and a class derived from it, each with or        *)
(* without a namespace, declarations and namespaced attributes, and one field *)
(* of every kind with or without a namespace and declarations of its own; a   *)
(* sub-model with or without its own.  All combinations.                      *)
EXTENDS MCBase

NsOpts == {<<>>, <<"p">>, <<"q">>, <<"">>}
Map0 == <<>>
MapsC == {<<>>, <<<<<<"p", "u:1">>>>>>, <<<<<<"", "u:0">>, <<"p", "u:1">>>>>>, <<<<<<"q", "u:2">>, <<"p", "u:1">>>>>>}
MapsB == {<<>>, <<<<<<"", "u:9">>, <<"p", "u:8">>>>>>}
MapsE == {<<>>, <<<<<<"q", "u:3">>>>>>, <<<<<<"p", "u:4">>, <<"", "u:5">>>>>>}
MapsS == {<<>>, <<<<<<"p", "u:7">>>>>>}
Kinds == {"elem", "attr", "wrap", "wrapattr", "sub", "dict"}
Configs ==
  [bns : {<<>>, <<"p">>}, bmap : MapsB, bat : {<<>>, <<TRUE>>}, cns : NsOpts, cmap : MapsC, cat : {<<>>, <<TRUE>>},
   kind : Kinds, ens : NsOpts, emap : MapsE, sns : {<<>>, <<"p">>}, smap : MapsS]
\* what does not matter for a kind is not varied
Relevant(c) == (c.kind # "sub" => c.sns = <<>> /\ c.smap = <<>>)
               /\ (Deep \/ (c.bat = <<>> \/ c.kind \in {"attr", "wrapattr"})) /\ (c.cat = <<>> \/ c.kind \in {"attr", "wrapattr", "dict"})
               /\ (Deep \/ c.kind \notin {"wrap", "wrapattr"} \/ c.bmap = <<>> \/ c.cmap = <<>>)

IntDict == [k |-> "dict", key |-> StrT, of |-> StrT]
E(loc, t, c) == [Ent0(loc, <<t>>) EXCEPT !.ns = c.ens, !.nsmap = c.emap]
Sub(c) == [Cls0("S") EXCEPT !.ns = c.sns, !.nsmap = c.smap, !.fields = <<[Fld0("x", StrT) EXCEPT !.ent = <<Elem("x")>>]>>]
FieldOfKind(c) ==
  CASE c.kind = "elem" -> [Fld0("f", StrT) EXCEPT !.ent = <<E("element", "t", c)>>]
    [] c.kind = "attr" -> [Fld0("f", StrT) EXCEPT !.ent = <<E("attr", "t", [c EXCEPT !.emap = <<>>])>>]
    [] c.kind = "wrap" -> [Fld0("f", StrT) EXCEPT !.ent = <<[E("wrapped", "w", c) EXCEPT !.inner = <<Elem("t")>>]>>]
    [] c.kind = "wrapattr" -> [Fld0("f", StrT) EXCEPT !.ent = <<[E("wrapped", "w", c) EXCEPT !.inner = <<Attr("t")>>]>>]
    [] c.kind = "sub" -> [Fld0("f", ModelT("S")) EXCEPT !.ent = <<E("element", "t", c)>>]
    [] c.kind = "dict" -> [Fld0("f", IntDict) EXCEPT !.ent = <<E("element", "t", c)>>]
B(c) == [Cls0("B") EXCEPT !.ns = c.bns, !.nsmap = c.bmap, !.nsattrs = c.bat]
D(c) == [Cls0("D") EXCEPT !.bases = <<"B">>, !.ns = c.cns, !.nsmap = c.cmap, !.nsattrs = c.cat, !.fields = <<FieldOfKind(c)>>]
Defs(c) == <<Sub(c), B(c), D(c)>>
Val1(c) == CASE c.kind = "sub" -> [k |-> "m", c |-> "S", f |-> <<<<"x", PrimV("str:a")>>>>, s |-> {"x"}]
             [] c.kind = "dict" -> [k |-> "d", kv |-> <<<<PrimV("str:k"), PrimV("str:a")>>>>]
             [] OTHER -> PrimV("str:a")
Obj(c) == [k |-> "m", c |-> "D", f |-> <<<<"f", Val1(c)>>>>, s |-> {"f"}]

VARIABLES cfg, ok, out, back
vars == <<cfg, ok, out, back>>
IdxOf(S, x) == Cardinality({y \in DOMAIN S : FALSE})
NumO(o) == IF o = <<>> THEN 0 ELSE 1 + (CASE o[1] = "p" -> 1 [] o[1] = "q" -> 2 [] OTHER -> 3)
NumM(m) == IF m = <<>> THEN 0 ELSE Len(m[1]) * 3 + Tag2Num(m[1][1][1]) + (CASE m[1][1][1] = "p" -> 1 [] m[1][1][1] = "q" -> 2 [] OTHER -> 4)
KNum(k) == CASE k = "elem" -> 1 [] k = "attr" -> 2 [] k = "wrap" -> 3 [] k = "wrapattr" -> 4 [] k = "sub" -> 5 [] OTHER -> 6
Num(c) == ((((((KNum(c.kind) * 5 + NumO(c.bns)) * 3 + Len(c.bat)) * 5 + NumO(c.cns)) * 7 + NumM(c.cmap)) * 3 + Len(c.cat)) * 5 + NumO(c.ens)) * 7
          + NumM(c.emap) + NumM(c.bmap) * 3 + NumO(c.sns) * 11 + NumM(c.smap) * 13
Reg(c) == RegOf(Defs(c))
Good1(r) == {"B", "D", "S"} \subseteq DOMAIN r /\ r["D"].status = "ok"
Init0 == cfg \in {c \in Configs : Relevant(c)} /\ ok = FALSE /\ out = <<>> /\ back = <<>>
Next == /\ out = <<>> /\ cfg' = cfg
        /\ LET r == Reg(cfg) IN
           /\ ok' = Good1(r)
           /\ out' = IF Good1(r) THEN <<WriteDoc(r, Obj(cfg), Fl0).w>> ELSE <<"rejected">>
           /\ back' = IF Good1(r) THEN <<Parse(r, "D", DocOf(WriteDoc(r, Obj(cfg), Fl0).w), O0)>> ELSE <<>>
           /\ IF Turn(Num(cfg))
              THEN Export(Defs(cfg), IF Good1(r) THEN <<NewEv("o", "D", <<<<"f", Val1(cfg)>>>>), SerEv("o", Fl0), RtEv("o", "p", Fl0)>> ELSE <<>>)
              ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The rule, flat *)
Done == out # <<>>
\* prefix -> uri along declarations, the nearest first; "?" : nowhere
RECURSIVE Uri(_, _)
Uri(p, ms) == IF ms = <<>> THEN "?" ELSE IF Head(ms) # <<>> /\ AHas(Head(ms)[1], p) THEN The(AGet(Head(ms)[1], p)) ELSE Uri(p, Tail(ms))
NoDecl(ms) == \A i \in DOMAIN ms : ms[i] = <<>>
Nm(uri, t) == IF uri \in {"", "?"} THEN t ELSE "{" \o uri \o "}" \o t
\* <<name>> or <<>> where it is not possible
ElemName(t, ns, ms) == IF ns = <<>> THEN <<Nm(Uri("", ms), t)>> ELSE IF NoDecl(ms) THEN <<t>>
                       ELSE IF Uri(ns[1], ms) = "?" THEN <<>> ELSE <<Nm(Uri(ns[1], ms), t)>>
AttrName(t, ns, ms) == IF ns = <<>> THEN <<t>> ELSE IF ns[1] = "" THEN <<>> ELSE IF NoDecl(ms) THEN <<t>>
                       ELSE IF Uri(ns[1], ms) = "?" THEN <<>> ELSE <<Nm(Uri(ns[1], ms), t)>>
CNs == First2(cfg.cns, cfg.bns)
CMaps == <<cfg.cmap, cfg.bmap>>
CAt == Or(cfg.cat, Or(cfg.bat, FALSE))
EMaps == <<cfg.emap>> \o CMaps
RootName == ElemName("D", CNs, CMaps)
FieldName ==
  CASE cfg.kind \in {"elem", "dict"} -> ElemName("t", First2(cfg.ens, CNs), EMaps)
    [] cfg.kind = "attr" -> AttrName("t", First2(cfg.ens, IF CAt THEN CNs ELSE <<>>), CMaps)
    [] cfg.kind = "wrap" -> ElemName("t", First2(cfg.ens, CNs), EMaps)
    [] cfg.kind = "wrapattr" -> AttrName("t", IF CAt THEN First2(cfg.ens, CNs) ELSE <<>>, EMaps)
    [] cfg.kind = "sub" -> ElemName("t", First2(cfg.ens, First2(cfg.sns, CNs)), <<cfg.emap, cfg.smap>> \o CMaps)
WrapName == ElemName("w", First2(cfg.ens, CNs), EMaps)
BaseOk == ElemName("B", cfg.bns, <<cfg.bmap>>) # <<>>
SubOk == ElemName("S", cfg.sns, <<cfg.smap>>) # <<>>
AllNamed == RootName # <<>> /\ FieldName # <<>> /\ (cfg.kind \in {"wrap", "wrapattr"} => WrapName # <<>>)
\* C21: a class is rejected exactly if a name cannot be made
Rejects == Done /\ BaseOk /\ SubOk => (ok <=> AllNamed)
\* C10, C11: the names are these
At(e, i) == e.kids[i]
Names1 == Done /\ ok =>
  LET d == out[1] IN
  /\ d.tag = RootName[1]
  /\ CASE cfg.kind = "attr" -> d.attrs = <<<<FieldName[1], "a">>>> /\ d.kids = <<>>
       [] cfg.kind = "wrap" -> Len(d.kids) = 1 /\ At(d, 1).tag = WrapName[1] /\ At(At(d, 1), 1).tag = FieldName[1]
       [] cfg.kind = "wrapattr" -> Len(d.kids) = 1 /\ At(d, 1).tag = WrapName[1] /\ At(d, 1).attrs = <<<<FieldName[1], "a">>>>
       [] OTHER -> Len(d.kids) = 1 /\ At(d, 1).tag = FieldName[1]
  \* inside a sub-model only its own settings count
  /\ cfg.kind = "sub" => At(At(d, 1), 1).tag = ElemName("x", cfg.sns, <<cfg.smap>>)[1]
  /\ cfg.kind = "dict" => At(d, 1).attrs = <<<<(LET n == First2(cfg.ens, CNs)
                                                IN IF CAt /\ Has(n) /\ n[1] # "" THEN Nm(Uri(n[1], EMaps), "k") ELSE "k"), "a">>>>
\* C10: the names written are the names read
ReadsOwn == Done /\ ok => back[1].x = "" /\ back[1].v = Obj(cfg)
\* C10: the same name in another namespace is another name
Other == Done /\ ok /\ cfg.kind = "elem" =>
  LET d == DocOf(out[1])
      k == [d.kids[1] EXCEPT !.tag = IF At(d, 1).tag = "t" THEN "{u:x}t" ELSE "t"]
  IN Parse(Reg(cfg), "D", [d EXCEPT !.kids = <<k>>], O0).x = "V"
\* C11: inheritance is as if the settings had been written on the class
Flattened == Done /\ ok =>
  LET fl == [D(cfg) EXCEPT !.bases = <<>>, !.ns = CNs, !.nsattrs = <<CAt>>,
                           !.nsmap = IF NoDecl(CMaps) THEN <<>>
                                     ELSE <<Or(cfg.cmap, <<>>) \o Filter(Or(cfg.bmap, <<>>), LAMBDA e : ~AHas(Or(cfg.cmap, <<>>), e[1]))>>]
      r == RegOf(<<Sub(cfg), fl>>)
  IN r["D"].xf = Reg(cfg)["D"].xf /\ r["D"].el = Reg(cfg)["D"].el
\* C10: prefixes are only names: exchanging p and q everywhere changes nothing
Sw(o) == IF o = <<"p">> THEN <<"q">> ELSE IF o = <<"q">> THEN <<"p">> ELSE o
SwM(m) == IF m = <<>> THEN m ELSE <<Map(LAMBDA e : <<(IF e[1] = "p" THEN "q" ELSE IF e[1] = "q" THEN "p" ELSE e[1]), e[2]>>, m[1])>>
Renamed == Done /\ ok =>
  LET c == [cfg EXCEPT !.bns = Sw(@), !.cns = Sw(@), !.ens = Sw(@), !.sns = Sw(@), !.bmap = SwM(@), !.cmap = SwM(@), !.emap = SwM(@), !.smap = SwM(@)]
      r == Reg(c)
      RECURSIVE Bare(_)
      Bare(w) == [tag |-> w.tag, attrs |-> w.attrs, text |-> w.text, kids |-> Map(Bare, w.kids)]
  IN Good1(r) /\ Bare(WriteDoc(r, Obj(c), Fl0).w) = Bare(out[1])
=============================================================================
