-------------------------------- MODULE Model -------------------------------
(* From class definitions to plans: inheritance of settings, qualified names *)
(* and the decision which declarations have an XML meaning.                  *)
(*                                                                           *)
(* A registry R maps a class name to a record                                *)
(*   [name, kind, status, err, set, flds, comps, vhooks, shooks, extra, hide,*)
(*    mvs, mro, xf, el]                                                      *)
(* status: "ok"      - may parse and serialize                               *)
(*         "partial" - waits for names or generic parameters                 *)
(*         "fail"    - rejected while being defined, err tells how           *)
EXTENDS Xml

-----------------------------------------------------------------------------
(* Names *)
UriOf(ns, tag) == IF Has(ns) /\ The(ns) # "" THEN "{" \o The(ns) \o "}" \o tag ELSE tag

\* qualified name of `tag` with the optional prefix ns under the declarations nsmap
Qualify(tag, ns, nsmap, isAttr) ==
  IF isAttr /\ ~Has(ns) THEN [ok |-> TRUE, uri |-> tag]
  ELSE IF ~Has(ns) THEN [ok |-> TRUE, uri |-> UriOf(AGet(nsmap, ""), tag)]
  ELSE IF nsmap = <<>> THEN [ok |-> TRUE, uri |-> tag]
  ELSE IF AHas(nsmap, The(ns)) THEN [ok |-> TRUE, uri |-> UriOf(AGet(nsmap, The(ns)), tag)]
  ELSE [ok |-> FALSE, uri |-> ""]

LocalName(uri) == IF uri # "" /\ Chr(uri, 1) = "{" THEN SubSeq(uri, IndexOf(uri, "}", 1) + 1, Len(uri)) ELSE uri

\* declarations visible at a place: the nearest come first (AGet takes the first)
NearFirst(near, far) == near \o far

NonEmpty(o) == IF Has(o) /\ The(o) # "" THEN o ELSE Nil    \* "" counts as not given (tags, paths)

-----------------------------------------------------------------------------
(* Type families *)
RECURSIVE Core(_)
Core(t) == IF t.k = "opt" THEN Core(t.of) ELSE t
Fam(t) ==
  LET c == Core(t) IN
  CASE c.k = "prim" -> "P"
    [] c.k = "model" -> "M"
    [] c.k \in {"list", "set", "frozenset"} -> "H"
    [] c.k \in {"vtuple", "tuple", "ptuple"} -> "T"
    [] c.k = "dict" -> "D"
    [] c.k = "td" -> "TD"
    [] c.k = "union" -> "U"
    [] c.k = "tagged" -> "TU"
    [] c.k = "raw" -> "I"
    [] c.k = "nt" -> "C"
    [] OTHER -> "X"                                         \* type the library does not know

IsFail(x) == x.p = "fail"
Fail(e, cx) == [p |-> "fail", e |-> e, model |-> cx.model, field |-> Or(cx.fname, "root")]
FieldFail(cx) == Fail("ModelFieldError", cx)
ModelFail == [p |-> "fail", e |-> "ModelError", model |-> "", field |-> ""]
TypeFail == [p |-> "fail", e |-> "TypeError", model |-> "", field |-> ""]
AssertFail == [p |-> "fail", e |-> "AssertionError", model |-> "", field |-> ""]
FirstFail(ps) == LET S == {i \in DOMAIN ps : IsFail(ps[i])} IN IF S = {} THEN Nil ELSE Some(ps[MinOf(S)])

Loc(cx) == IF Has(cx.ent) THEN The(cx.ent).loc ELSE "none"
EPath(cx) == IF Has(cx.ent) THEN NonEmpty(The(cx.ent).path) ELSE Nil
ENs(cx) == IF Has(cx.ent) THEN The(cx.ent).ns ELSE Nil
EMap(cx) == IF Has(cx.ent) THEN Or(The(cx.ent).nsmap, <<>>) ELSE <<>>
ENil(cx) == IF Has(cx.ent) THEN Or(The(cx.ent).nil, FALSE) ELSE FALSE
Named(cx) == First3(EPath(cx), NonEmpty(cx.alias), cx.fname)
NsAt(cx) == First2(ENs(cx), cx.pns)
MapAt(cx) == NearFirst(EMap(cx), cx.pmap)

(* Compile a type at a context
     [model, fname, alias, comp, ent, nsattrs, mode, pns, pmap]
   R is the registry the sub-models are looked up in.                        *)
RECURSIVE Plan(_, _, _)

PlanPrim(t, cx) ==
  CASE Loc(cx) = "none" -> [p |-> "text", ty |-> t.ty, nil |-> ENil(cx), comp |-> cx.comp]
    [] Loc(cx) = "attr" ->
         LET ns == First2(ENs(cx), IF cx.nsattrs THEN cx.pns ELSE Nil)
             nm == Named(cx)
         IN IF ns = Some("") \/ ~Has(nm) THEN FieldFail(cx)
            ELSE LET q == Qualify(The(nm), ns, MapAt(cx), TRUE)
                 IN IF ~q.ok THEN ModelFail ELSE [p |-> "attr", n |-> q.uri, ty |-> t.ty, comp |-> cx.comp]
    [] Loc(cx) = "element" ->
         LET nm == Named(cx)
         IN IF ~Has(nm) THEN FieldFail(cx)
            ELSE LET q == Qualify(The(nm), NsAt(cx), MapAt(cx), FALSE)
                 IN IF ~q.ok THEN ModelFail
                    ELSE [p |-> "elem", n |-> q.uri, ty |-> t.ty, nil |-> ENil(cx), comp |-> cx.comp,
                          mode |-> cx.mode, nsmap |-> MapAt(cx)]

PlanRaw(cx) ==
  LET nm == Named(cx)
  IN IF Loc(cx) = "attr" \/ ~Has(nm) THEN FieldFail(cx)
     ELSE LET q == Qualify(The(nm), NsAt(cx), MapAt(cx), FALSE)
          IN IF ~q.ok THEN ModelFail ELSE [p |-> "raw", n |-> q.uri, comp |-> cx.comp, mode |-> cx.mode, nsmap |-> MapAt(cx)]

PlanProxy(R, t, cx) ==
  IF Loc(cx) = "attr" THEN FieldFail(cx)
  ELSE LET c  == R[t.c]
           nm == First3(First2(EPath(cx), NonEmpty(c.set.tag)), NonEmpty(cx.alias), First2(cx.fname, Some(c.dtag)))
           ns == First3(ENs(cx), c.set.ns, cx.pns)
           mp == NearFirst(EMap(cx), NearFirst(c.set.nsmap, cx.pmap))
           q  == Qualify(The(nm), ns, mp, FALSE)
       IN IF ~q.ok THEN ModelFail
          ELSE [p |-> "proxy", c |-> t.c, n |-> q.uri, nil |-> ENil(cx), comp |-> cx.comp, mode |-> cx.mode, nsmap |-> mp]

\* mapping plans: w = namespace the entries are written with, loc = local names are read
PlanMap(t, cx) ==
  LET sub == IF t.k = "dict" THEN <<t.key, t.of>> ELSE Map(LAMBDA f : f[2], t.of)
      bad == {i \in DOMAIN sub : Fam(sub[i]) # "P"}
      ns == NsAt(cx)
      w  == IF cx.nsattrs /\ Has(ns) /\ The(ns) # "" THEN AGet(MapAt(cx), The(ns)) ELSE Nil
      base == [ns |-> w, loc |-> cx.nsattrs, typ |-> t, comp |-> cx.comp, mode |-> cx.mode, nsmap |-> MapAt(cx)]
  IN IF bad # {} THEN (IF Fam(sub[MinOf(bad)]) = "X" \/ (t.k = "dict" /\ \E i \in bad : Fam(sub[i]) = "X")
                       THEN ModelFail ELSE FieldFail(cx))
     ELSE CASE Loc(cx) = "attr" -> FieldFail(cx)
            [] Loc(cx) = "none" -> [p |-> "attrs", n |-> ""] @@ base
            [] Loc(cx) = "element" ->
                 IF ~Has(Named(cx)) THEN FieldFail(cx)
                 ELSE LET q == Qualify(The(Named(cx)), ns, MapAt(cx), FALSE)
                      IN IF ~q.ok THEN ModelFail ELSE [p |-> "melem", n |-> q.uri] @@ base

HItem == {"P", "M", "D", "TD", "U", "TU", "I", "C", "T"}     \* item families of homogeneous collections
TItem == {"P", "M", "D", "TD", "U", "TU", "I", "C"}          \* item families of tuples
PrimUnion(t) == Fam(t) = "U" /\ \A i \in DOMAIN Core(t).of : Fam(Core(t).of[i]) = "P"   \* one scalar, needs a name
PlanList(R, t, cx) ==
  LET f == Fam(t.of) IN
  IF f = "X" THEN ModelFail
  ELSE IF f \notin HItem \/ (f \notin {"M", "U", "TU", "T", "C"} /\ Loc(cx) = "none") \/ Loc(cx) = "attr"
  THEN FieldFail(cx)
  ELSE LET in == Plan(R, t.of, cx)
       IN IF IsFail(in) THEN in
          ELSE IF Loc(cx) = "none" /\ PrimUnion(t.of) THEN FieldFail(cx)
          ELSE [p |-> "list", in |-> in, comp |-> cx.comp]

PlanTuple(R, items, cx) ==
  LET badAt == {i \in DOMAIN items : Fam(items[i]) \notin TItem
                                      \/ (Fam(items[i]) \notin {"M", "U"} /\ Loc(cx) = "none")}
      ins == Map(LAMBDA it : Plan(R, it, cx), items)
  IN IF badAt # {} THEN (IF Fam(items[MinOf(badAt)]) = "X" THEN ModelFail ELSE FieldFail(cx))
     ELSE IF Loc(cx) = "attr" THEN FieldFail(cx)
     ELSE IF Has(FirstFail(ins)) THEN The(FirstFail(ins))
     ELSE IF Loc(cx) = "none" /\ SomeIn(items, PrimUnion) THEN FieldFail(cx)
     ELSE [p |-> "tuple", ins |-> ins, comp |-> cx.comp]

PlanUnion(R, t, cx) ==
  LET fams == Map(Fam, t.of)
      bad == {i \in DOMAIN fams : fams[i] \notin {"P", "M"}}
  IN IF bad # {} THEN (IF fams[MinOf(bad)] = "X" THEN ModelFail ELSE FieldFail(cx))
     ELSE IF Range(fams) = {"P", "M"} THEN TypeFail
     ELSE IF Range(fams) = {"P"} THEN PlanPrim(t, cx)        \* t.ty : the union as one scalar type
     ELSE LET alts == Map(LAMBDA a : Plan(R, a, cx), t.of)
          IN IF Has(FirstFail(alts)) THEN The(FirstFail(alts))
             ELSE [p |-> "unionm", alts |-> alts, comp |-> cx.comp]

DiscAttr(R, c, disc) ==                       \* attribute name of the discriminator field, if it is an attribute
  LET S == {i \in DOMAIN R[c].xf : R[c].xf[i].name = disc}
  IN IF S = {} THEN Nil
     ELSE LET pl == R[c].xf[MinOf(S)].plan IN IF pl.p = "attr" THEN Some(pl.n) ELSE Nil
PlanTagged(R, t, cx) ==
  LET pl(a) == Plan(R, [k |-> "model", c |-> a[2]], cx)
      attrs == Map(LAMBDA a : DiscAttr(R, a[2], t.disc), t.of)
      \* outcome of the i-th alternative in isolation
      Bad(i) == LET a == t.of[i] IN
                IF IsFail(pl(a)) THEN Some(pl(a))
                ELSE IF R[a[2]].status # "ok" THEN Some(AssertFail)
                ELSE IF ~Has(attrs[i]) THEN Some(FieldFail(cx))
                ELSE IF \E j \in 1 .. i - 1 : Has(attrs[j]) /\ attrs[j] # attrs[i] THEN Some(FieldFail(cx))
                ELSE Nil
      S == {i \in DOMAIN t.of : Has(Bad(i))}
  IN IF \E i \in DOMAIN t.of : R[t.of[i][2]].kind = "root" THEN FieldFail(cx)
     ELSE IF ~t.strtags THEN FieldFail(cx)
     ELSE IF S # {} THEN The(Bad(MinOf(S)))
     ELSE [p |-> "tagged", disc |-> t.disc, attr |-> The(attrs[1]), comp |-> cx.comp, mode |-> cx.mode,
           alts |-> Map(LAMBDA a : <<a[1], pl(a)>>, t.of)]

PlanWrap(R, t, cx) ==
  LET parts == SplitBy(The(cx.ent).path[1], "/")
      qs == Map(LAMBDA s : Qualify(s, NsAt(cx), MapAt(cx), FALSE), parts)
      in == Plan(R, t, [cx EXCEPT !.ent = The(cx.ent).inner, !.pns = NsAt(cx), !.pmap = MapAt(cx)])
  IN IF IsFail(in) THEN in
     ELSE IF \E i \in DOMAIN qs : ~qs[i].ok THEN ModelFail
     ELSE [p |-> "wrap", path |-> Map(LAMBDA q : q.uri, qs), mode |-> cx.mode, comp |-> cx.comp,
           nsmap |-> MapAt(cx), in |-> in]

Plan(R, typ, cx) ==
  LET t == Core(typ)  f == Fam(typ) IN
  IF f = "X" THEN ModelFail
  ELSE IF Loc(cx) = "wrapped" THEN PlanWrap(R, t, cx)
  ELSE CASE f = "P" -> PlanPrim(t, cx)
         [] f = "M" -> PlanProxy(R, t, cx)
         [] f = "I" -> PlanRaw(cx)
         [] f \in {"D", "TD"} -> PlanMap(t, cx)
         [] f = "H" -> PlanList(R, t, cx)
         [] t.k = "vtuple" -> PlanList(R, t, cx)
         [] t.k = "ptuple" -> FieldFail(cx)
         [] t.k = "tuple" -> PlanTuple(R, t.of, cx)
         [] f = "C" -> PlanTuple(R, Map(LAMBDA a : a[2], t.of), cx)
         [] f = "U" -> PlanUnion(R, t, cx)
         [] f = "TU" -> PlanTagged(R, t, cx)

-----------------------------------------------------------------------------
(* Classes *)

\* settings: own value, else the one of the first base; declarations merged
NoSet == [tag |-> Nil, ns |-> Nil, nsmap |-> <<>>, nsattrs |-> FALSE, skip |-> Nil, mode |-> "strict"]
Settings(R, d) ==
  LET xml == Filter(d.bases, LAMBDA n : R[n].kind # "mixin")       \* plain pydantic bases carry no settings
      b == IF xml = <<>> THEN NoSet ELSE R[xml[1]].set
      own == Or(d.nsmap, <<>>)
  IN [tag |-> First2(d.tag, b.tag), ns |-> First2(d.ns, b.ns),
      nsmap |-> NearFirst(own, Filter(b.nsmap, LAMBDA e : ~AHas(own, e[1]))),
      nsattrs |-> Or(d.nsattrs, b.nsattrs), skip |-> First2(d.skip, b.skip), mode |-> Or(d.mode, b.mode)]

\* generic parameters replaced by their arguments
RECURSIVE Subst(_, _)
Subst(t, args) ==
  CASE t.k = "var" -> (IF AHas(args, t.n) THEN The(AGet(args, t.n)) ELSE t)
    [] t.k \in {"opt", "list", "set", "frozenset", "vtuple"} -> [t EXCEPT !.of = Subst(t.of, args)]
    [] t.k \in {"tuple", "union"} -> [t EXCEPT !.of = Map(LAMBDA x : Subst(x, args), t.of)]
    [] OTHER -> t

\* inherited members keep their place, redefined ones are replaced in place
Merge(old, new) ==
  Fold(LAMBDA acc, f : LET S == {i \in DOMAIN acc : acc[i].name = f.name}
                       IN IF S = {} THEN Append(acc, f) ELSE [acc EXCEPT ![MinOf(S)] = f], old, new)
MergeA(old, new) == Fold(LAMBDA acc, e : APut(acc, e[1], e[2]), old, new)
Bases(R, d, Get(_)) ==                         \* the farthest base first
  Fold(LAMBDA acc, i : Merge(acc, Get(R[d.bases[Len(d.bases) + 1 - i]])), <<>>, [i \in DOMAIN d.bases |-> i])
BasesA(R, d, Get(_)) ==
  Fold(LAMBDA acc, i : MergeA(acc, Get(R[d.bases[Len(d.bases) + 1 - i]])), <<>>, [i \in DOMAIN d.bases |-> i])
SubstF(fs, args) == IF args = <<>> THEN fs ELSE Map(LAMBDA f : [f EXCEPT !.typ = Subst(f.typ, args)], fs)

\* names of classes a type refers to
RECURSIVE Refs(_)
Refs(t) ==
  CASE t.k = "model" -> {t.c}
    [] t.k \in {"opt", "list", "set", "frozenset", "vtuple"} -> Refs(t.of)
    [] t.k \in {"tuple", "union"} -> UNION {Refs(t.of[i]) : i \in DOMAIN t.of}
    [] t.k \in {"nt", "td"} -> UNION {Refs(t.of[i][2]) : i \in DOMAIN t.of}
    [] t.k = "dict" -> Refs(t.key) \cup Refs(t.of)
    [] t.k = "tagged" -> {t.of[i][2] : i \in DOMAIN t.of}
    [] OTHER -> {}
RECURSIVE Vars(_)
Vars(t) ==
  CASE t.k = "var" -> {t.n}
    [] t.k \in {"opt", "list", "set", "frozenset", "vtuple"} -> Vars(t.of)
    [] t.k \in {"tuple", "union"} -> UNION {Vars(t.of[i]) : i \in DOMAIN t.of}
    [] OTHER -> {}

\* a typed dictionary treats other keys as its class does
RECURSIVE Mark(_, _)
Mark(t, x) ==
  CASE t.k = "td" -> [t EXCEPT !.forbid = x]
    [] t.k \in {"opt", "list", "set", "frozenset", "vtuple"} -> [t EXCEPT !.of = Mark(t.of, x)]
    [] t.k \in {"tuple", "union"} -> [t EXCEPT !.of = Map(LAMBDA a : Mark(a, x), t.of)]
    [] t.k = "nt" -> [t EXCEPT !.of = Map(LAMBDA a : <<a[1], Mark(a[2], x)>>, t.of)]
    [] OTHER -> t

\* everything but the plans
Stage(R, d) ==
  LET extra == Or(d.extra, Fold(LAMBDA acc, b : IF R[b].extraset # Nil THEN The(R[b].extraset) ELSE acc, "ignore", d.bases))
  IN [name |-> d.name, dtag |-> IF d.args # <<>> THEN R[d.bases[1]].dtag ELSE d.name, kind |-> d.kind, status |-> "partial", err |-> Nil,
   set |-> Settings(R, d),
   flds |-> Map(LAMBDA f : [f EXCEPT !.typ = Mark(f.typ, extra)],
               SubstF(Merge(Bases(R, d, LAMBDA c : c.flds), d.fields), d.args)),
   comps |-> Merge(Bases(R, d, LAMBDA c : c.comps), d.comps),
   vhooks |-> MergeA(BasesA(R, d, LAMBDA c : c.vhooks), d.vhooks),
   shooks |-> MergeA(BasesA(R, d, LAMBDA c : c.shooks), d.shooks),
   extra |-> extra,
   extraset |-> First2(d.extra, Fold(LAMBDA acc, b : First2(R[b].extraset, acc), Nil, d.bases)),
   hide |-> Or(d.hide, Fold(LAMBDA acc, b : IF R[b].hideset # Nil THEN The(R[b].hideset) ELSE acc, FALSE, d.bases)),
   hideset |-> First2(d.hide, Fold(LAMBDA acc, b : First2(R[b].hideset, acc), Nil, d.bases)),
   mvs |-> Flat(Map(LAMBDA b : R[b].mvs, d.bases)) \o d.mvs,
   mro |-> <<d.name>> \o Flat(Map(LAMBDA b : R[b].mro, d.bases)),
   params |-> d.params, unbound |-> d.params # <<>>, valok |-> FALSE, uerr |-> d.uerr, xf |-> <<>>, el |-> ""]

\* all names needed to know the class completely
RECURSIVE ReachFrom(_, _, _)
ReachFrom(R, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET n == CHOOSE x \in todo : TRUE
           more == IF n \in DOMAIN R THEN UNION {Refs(R[n].flds[i].typ) : i \in DOMAIN R[n].flds} ELSE {}
       IN ReachFrom(R, (todo \cup (more \ seen)) \ {n}, seen \cup {n})
Resolved(R, c) == \A n \in ReachFrom(R, {c}, {}) : n \in DOMAIN R

FieldKey(f) == Or(f.valias, f.name)
\* the hook of a field: a decorated function wins over an annotation
HookOf(deco, ann, name) == First2(AGet(deco, name), ann)

\* the class with its plans; R already holds the staged class
Build(R, c) ==
  LET s == R[c]
      cx == [model |-> s.name, fname |-> Nil, alias |-> Nil, comp |-> FALSE, ent |-> Nil,
             nsattrs |-> s.set.nsattrs, mode |-> s.set.mode, pns |-> s.set.ns, pmap |-> s.set.nsmap]
      mine == Filter(s.flds, LAMBDA f : ~f.noxml)
      fcx(f) == [cx EXCEPT !.fname = IF s.kind = "root" THEN Nil ELSE Some(f.name),
                           !.alias = IF s.kind = "root" THEN Nil ELSE f.salias, !.ent = f.ent]
      ccx(f) == [cx EXCEPT !.fname = Some(f.name), !.alias = f.salias, !.ent = f.ent, !.comp = TRUE]
      xf1 == Map(LAMBDA f : [name |-> f.name, key |-> FieldKey(f), plan |-> Plan(R, f.typ, fcx(f)), typ |-> f.typ,
                             excl |-> f.excl, comp |-> FALSE, cdef |-> Nil,
                             vh |-> HookOf(s.vhooks, f.avh, f.name), sh |-> HookOf(s.shooks, f.ash, f.name)], mine)
      xf2 == IF s.kind = "root" THEN <<>>
             ELSE Map(LAMBDA f : [name |-> f.name, key |-> f.name, plan |-> Plan(R, f.typ, ccx(f)), typ |-> f.typ,
                             excl |-> FALSE, comp |-> TRUE, cdef |-> f, vh |-> Nil, sh |-> AGet(s.shooks, f.name)], s.comps)
      xf == xf1 \o xf2
      ff == FirstFail(Map(LAMBDA x : x.plan, xf))
      q == Qualify(Or(NonEmpty(s.set.tag), s.dtag), s.set.ns, s.set.nsmap, FALSE)
  IN IF Has(ff) THEN [s EXCEPT !.status = "fail", !.err = ff]
     ELSE IF ~q.ok THEN [s EXCEPT !.status = "fail", !.err = Some(ModelFail)]
     ELSE [s EXCEPT !.status = "ok", !.xf = xf, !.el = q.uri]

\* class statement / create_model / parametrisation
Define(R, d) ==
  LET s == Stage(R, d)
      rootOfVar == s.kind = "root" /\ s.flds # <<>> /\ s.flds[1].typ.k # "var"
      unbound == s.unbound /\ ~rootOfVar
      R1 == (d.name :> [s EXCEPT !.unbound = unbound]) @@ R
  IN IF d.kind = "mixin" THEN (d.name :> [s EXCEPT !.status = "mixin"]) @@ R     \* has no XML meaning by itself
     ELSE IF unbound THEN R1
     ELSE IF ~Resolved(R1, d.name) THEN R1
     ELSE (d.name :> Build(R1, d.name)) @@ R1
=============================================================================
