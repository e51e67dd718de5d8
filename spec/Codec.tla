-------------------------------- MODULE Codec -------------------------------
(* Reading a document into a value and writing a value into a document,      *)
(* following the plans of module Model.                                      *)
(*                                                                           *)
(* Scalars are opaque: T tabulates the validation library,                   *)
(*   T.P[ty][text] = [ok, v, errs]   text to value (or its errors)           *)
(*   T.N[ty]       = [ok, v, errs]   the same for a missing tuple item       *)
(*   T.E[ty][v]    = text            value to its canonical text             *)
(* and T.ctx lists the scalar types whose reading depends on the context.    *)
(*                                                                           *)
(* Values:  [k "none"] | [k "p", v] | [k "l", t, xs] | [k "d", kv]           *)
(*          | [k "m", c, f, s] | [k "raw", t]                                *)
(* Wire values (read, not validated yet): [k "none"] | [k "t", v]            *)
(*          | [k "wl", xs] | [k "wd", kv] | [k "m", ..] | [k "raw", ..]      *)
(* An error is [loc, type, line, msg].                                       *)
EXTENDS Model
T == TLCGet(2)      \* the root module puts the table there once

NoneV == [k |-> "none"]
UndefW == [k |-> "undef"]                     \* nothing was given
PrimV(s) == [k |-> "p", v |-> s]
TextW(s) == [k |-> "t", v |-> s]
Err(loc, type, msg) == [loc |-> loc, type |-> type, line |-> 0, msg |-> msg]
Prefix(p, errs) == Map(LAMBDA e : [e EXCEPT !.loc = p \o e.loc], errs)

-----------------------------------------------------------------------------
(* The validation library, type by type *)
Good(v) == [ok |-> TRUE, v |-> v, errs |-> <<>>]
Bad(errs) == [ok |-> FALSE, v |-> NoneV, errs |-> errs]
TabErrs(es) == Map(LAMBDA e : Err(e[1], e[2], e[3]), es)
FromTab(r) == IF r.ok THEN Good(r.v) ELSE Bad(TabErrs(r.errs))

\* type of the scalar a place accepts (Optional does not matter once there is a text)
Scalar(t) == Core(t).ty
CtxKey(ty, ctx) == IF Has(ctx) /\ ty \in Range(T.ctx) THEN ty \o "|" \o The(ctx) ELSE ty
ParseText(ty, s, ctx) == IF ty = "str" THEN Good(PrimV("str:" \o s)) ELSE FromTab(T.P[CtxKey(ty, ctx)][s])
PrintScalar(ty, v) == IF ty = "str" THEN SubSeq(v.v, 5, Len(v.v)) ELSE T.E[ty][v.v]

Combine(rs, v) ==                             \* all parts, or the errors of all the bad ones
  IF AllIn(rs, LAMBDA r : r.ok) THEN Good(v) ELSE Bad(Flat(Map(LAMBDA r : r.errs, rs)))
Items(rs) == Map(LAMBDA r : r.v, rs)
Dedup(xs) == Fold(LAMBDA acc, x : IF SomeIn(acc, LAMBDA y : y = x) THEN acc ELSE Append(acc, x), <<>>, xs)

ModelRules(R, c, fs) ==                       \* model validators: reject a given value of a given field
  Fold(LAMBDA acc, r : IF acc # <<>> THEN acc
                       ELSE IF AGet(fs, r.field) = Some(r.v) THEN <<Err(<<>>, "value_error", "Value error, " \o r.msg)>>
                       ELSE acc, <<>>, R[c].mvs)

RECURSIVE Val(_, _, _, _)
Val(R, typ, w, ctx) ==
  LET t == Core(typ)
      At(i, r) == [r EXCEPT !.errs = Prefix(<<IdxTok(i)>>, r.errs)]
      Each(xs, Ty(_)) == Map(LAMBDA i : At(i - 1, Val(R, Ty(i), xs[i], ctx)), [j \in DOMAIN xs |-> j])
  IN
  IF w.k = "none" THEN
    (IF typ.k = "opt" THEN Good(NoneV)
     ELSE CASE t.k = "prim" \/ (t.k = "union" /\ Range(Map(Fam, t.of)) = {"P"}) -> FromTab(T.N[t.ty])
            [] t.k = "model" /\ R[t.c].kind = "root" ->        \* None is taken as the root value
                 LET r == Val(R, R[t.c].flds[1].typ, w, ctx)
                     fs == <<<<"root", r.v>>>>
                     no == IF r.ok THEN ModelRules(R, t.c, fs) ELSE <<>>
                 IN IF no # <<>> THEN Bad(no) ELSE [r EXCEPT !.v = [k |-> "m", c |-> t.c, f |-> fs, s |-> {"root"}]]
            [] t.k = "model" -> Bad(<<Err(<<>>, "model_type", "Input should be a valid dictionary or instance of " \o t.c)>>)
            [] t.k = "list" -> Bad(<<Err(<<>>, "list_type", "Input should be a valid list")>>)
            [] t.k \in {"tuple", "vtuple"} -> Bad(<<Err(<<>>, "tuple_type", "Input should be a valid tuple")>>)
            [] t.k = "set" -> Bad(<<Err(<<>>, "set_type", "Input should be a valid set")>>)
            [] t.k = "frozenset" -> Bad(<<Err(<<>>, "frozen_set_type", "Input should be a valid frozenset")>>)
            [] t.k = "raw" -> Bad(<<Err(<<>>, "is_instance_of", "Input should be an instance of Element")>>)
            [] t.k = "tagged" -> Bad(<<Err(<<>>, "model_attributes_type", "Input should be a valid dictionary or object to extract fields from")>>)
            [] t.k = "union" -> LET rs == Map(LAMBDA a : LET r == Val(R, a, w, ctx) IN [r EXCEPT !.errs = Prefix(<<Core(a).c>>, r.errs)], t.of)
                                IN IF SomeIn(rs, LAMBDA r : r.ok) THEN rs[MinOf({i \in DOMAIN rs : rs[i].ok})]
                                   ELSE Bad(Flat(Map(LAMBDA r : r.errs, rs)))
            [] t.k = "nt" -> Bad(<<Err(<<>>, "arguments_type", "Arguments must be a tuple, list or a dictionary")>>)
            [] t.k \in {"dict", "td"} -> Bad(<<Err(<<>>, "dict_type", "Input should be a valid dictionary")>>)
            [] OTHER -> Bad(<<Err(<<>>, "unexpected", "")>>))
  ELSE CASE t.k = "prim" -> ParseText(t.ty, w.v, ctx)
         [] t.k = "union" -> IF w.k = "t" THEN ParseText(t.ty, w.v, ctx) ELSE Good(w)
         [] t.k \in {"model", "tagged", "raw"} -> Good(w)
         [] t.k \in {"list", "vtuple"} ->
              LET rs == Each(w.xs, LAMBDA i : t.of)
              IN Combine(rs, [k |-> "l", t |-> IF t.k = "vtuple" THEN "tuple" ELSE "list", xs |-> Items(rs)])
         [] t.k \in {"set", "frozenset"} ->
              LET rs == Each(w.xs, LAMBDA i : t.of)
              IN Combine(rs, [k |-> "l", t |-> t.k, xs |-> Dedup(Items(rs))])
         [] t.k = "tuple" ->
              LET rs == Each(w.xs, LAMBDA i : t.of[i])
              IN Combine(rs, [k |-> "l", t |-> "tuple", xs |-> Items(rs)])
         [] t.k = "nt" ->
              LET rs == Each(w.xs, LAMBDA i : t.of[i][2])
              IN Combine(rs, [k |-> "l", t |-> "nt:" \o t.n, xs |-> Items(rs)])
         [] t.k = "dict" ->
              LET ks == Map(LAMBDA e : LET r == ParseText(Scalar(t.key), e[2], ctx)
                                       IN [r EXCEPT !.errs = Prefix(<<e[1], "[key]">>, r.errs)],
                            Map(LAMBDA e : <<e[1], e[1]>>, w.kv))
                  vs == Map(LAMBDA e : LET r == ParseText(Scalar(t.of), e[2], ctx)
                                       IN [r EXCEPT !.errs = Prefix(<<e[1]>>, r.errs)], w.kv)
              IN Combine(ks \o vs,
                         [k |-> "d", kv |-> Fold(LAMBDA acc, i : APut(acc, ks[i].v, vs[i].v), <<>>, [i \in DOMAIN ks |-> i])])
         [] t.k = "td" ->
              LET one(f) == IF AHas(w.kv, f[1])
                            THEN LET r == ParseText(Scalar(f[2]), The(AGet(w.kv, f[1])), ctx)
                                 IN [r EXCEPT !.errs = Prefix(<<f[1]>>, r.errs)]
                            ELSE IF f[3] THEN Bad(<<Err(<<f[1]>>, "missing", "Field required")>>) ELSE Good(NoneV)
                  rs == Map(one, t.of)
                  have == Filter([i \in DOMAIN t.of |-> i], LAMBDA i : AHas(w.kv, t.of[i][1]))
                  more == Filter(w.kv, LAMBDA e : ~SomeIn(t.of, LAMBDA f : f[1] = e[1]))
                  xs == IF t.forbid # "forbid" THEN <<>>
                        ELSE Map(LAMBDA e : Bad(<<Err(<<e[1]>>, "extra_forbidden", "Extra inputs are not permitted")>>), more)
                  kept == IF t.forbid # "allow" THEN <<>> ELSE Map(LAMBDA e : <<PrimV("str:" \o e[1]), PrimV("str:" \o e[2])>>, more)
              IN Combine(rs \o xs, [k |-> "d", kv |-> Map(LAMBDA i : <<PrimV("str:" \o t.of[i][1]), rs[i].v>>, have) \o kept])

\* construction of an instance from keyword values; kw : key -> wire (or finished) value
NameOr(f) == Or(f.valias, f.name)
MakeWith(R, c, kw, Conv(_, _)) ==
  LET fl == R[c].flds
      one(f) == IF AHas(kw, NameOr(f))
                THEN LET r == Conv(f, The(AGet(kw, NameOr(f)))) IN [r EXCEPT !.errs = Prefix(<<NameOr(f)>>, r.errs)]
                ELSE IF f.dflt # <<>> THEN Good(f.dflt[1])
                ELSE Bad(<<Err(<<NameOr(f)>>, "missing", "Field required")>>)
      rs == Map(one, fl)
      fs == Map(LAMBDA i : <<fl[i].name, rs[i].v>>, [i \in DOMAIN fl |-> i])
      r0 == Combine(rs, [k |-> "m", c |-> c, f |-> fs,
                         s |-> {fl[i].name : i \in {j \in DOMAIN fl : AHas(kw, NameOr(fl[j]))}}])
  IN IF r0.ok /\ ModelRules(R, c, fs) # <<>> THEN Bad(ModelRules(R, c, fs)) ELSE r0
\* a root model without a value: its default, else what its root type makes of no value
RECURSIVE UndefRoot(_, _)
UndefRoot(R, c) ==
  LET f == R[c].flds[1]  t == Core(f.typ)
      of(x) == [k |-> "m", c |-> c, f |-> <<<<"root", x>>>>, s |-> {}]
      alts == IF t.k = "model" THEN <<t>> ELSE IF t.k = "union" /\ t.ty = "" THEN Map(Core, t.of) ELSE <<>>
      fine == {i \in DOMAIN alts : R[alts[i].c].kind = "root" /\ R[alts[i].c].status = "ok" /\ UndefRoot(R, alts[i].c).ok}
      full(r) == LET no == ModelRules(R, c, <<<<"root", r.v>>>>) IN IF ~r.ok THEN r ELSE IF no # <<>> THEN Bad(no) ELSE [r EXCEPT !.v = of(r.v)]
  IN IF f.dflt # <<>> THEN full(Good(f.dflt[1]))
     ELSE IF fine # {} THEN full(UndefRoot(R, alts[MinOf(fine)].c))
     ELSE Bad(TabErrs(R[c].uerr))
MakeRoot(R, c, w, uerr, Conv(_, _)) ==
  LET f == R[c].flds[1] IN
  IF w.k = "undef" THEN UndefRoot(R, c)
  ELSE LET r == Conv(f, w)
           fs == <<<<"root", r.v>>>>
           bad == IF r.ok THEN ModelRules(R, c, fs) ELSE <<>>
       IN IF bad # <<>> THEN Bad(bad)
          ELSE [r EXCEPT !.v = [k |-> "m", c |-> c, f |-> fs, s |-> {"root"}]]

-----------------------------------------------------------------------------
(* Reading.  x: "" done, "V" validation errors, "A" a partial class was met  *)
Ret(el, sm, v) == [el |-> el, sm |-> sm, x |-> "", v |-> v, errs |-> <<>>, title |-> ""]
Exc(el, sm, errs, title) == [el |-> el, sm |-> sm, x |-> "V", v |-> NoneV, errs |-> errs, title |-> title]
Asr(el, sm) == [el |-> el, sm |-> sm, x |-> "A", v |-> NoneV, errs |-> <<>>, title |-> ""]

Line(sm, loc) ==                              \* the longest known prefix of the location
  LET at(n) == AGet(sm, SubSeq(loc, 1, n))
      S == {n \in 0 .. Len(loc) : at(n) # <<>> /\ at(n) # Some(0 - 1)}
  IN IF S = {} THEN (0 - 1) ELSE The(at(MaxOf(S)))
Lined(sm, errs) == Map(LAMBDA e : [e EXCEPT !.line = Line(sm, e.loc)], errs)

\* a hook script: steps of the reader API; what each returned goes into the result
\* (also used by the API state machine, module XmlApi)
Show(o) == IF Has(o) THEN The(o) ELSE "-"
RECURSIVE PathLen(_, _, _, _)
PathLen(el, path, i, mode) ==                 \* [el, n] after find_sub_element
  IF i > Len(path) THEN [el |-> el, n |-> 0]
  ELSE LET h == Find(el, path[i], mode, TRUE, TRUE)
       IN IF h.pos = 0 THEN [el |-> h.el, n |-> 0]
          ELSE LET r == PathLen(h.el.kids[h.pos], path, i + 1, mode)
               IN [el |-> SetKid(h.el, h.pos, r.el), n |-> r.n + 1]
OptText(s) == IF s = "" THEN Nil ELSE Some(s)
ShowAttrs(al) == Fold(LAMBDA acc, a : acc \o a[1] \o "=" \o a[2] \o ",", "{", al) \o "}"
IsEmptyR(el) == el.text = "" /\ el.tail = "" /\ el.attrs = <<>> /\ el.kids = <<>>
RECURSIVE RunSteps(_, _)
Step(el, s) ==                                \* [el, r]
  LET mode == s.mode  a == s.a IN
  CASE s.op = "text" -> LET p == PopText(el) IN [el |-> p.el, r |-> Show(OptText(p.v))]
    [] s.op = "tail" -> [el |-> [el EXCEPT !.tail = ""], r |-> Show(OptText(el.tail))]
    [] s.op = "attr" -> LET p == PopAttr(el, a) IN [el |-> p.el, r |-> Show(p.v)]
    [] s.op = "get" -> [el |-> el, r |-> Show(GetAttr(el, a))]
    [] s.op = "attrs" -> LET p == PopAttrs(el) IN [el |-> p.el, r |-> IF Has(p.v) THEN ShowAttrs(The(p.v)) ELSE "-"]
    [] s.op = "pop" -> LET h == PopElement(el, a, mode)
                       IN IF h.pos = 0 THEN [el |-> h.el, r |-> "!"]
                          ELSE LET p == PopText(h.el.kids[h.pos])
                               IN [el |-> SetKid(h.el, h.pos, p.el), r |-> Show(OptText(p.v))]
    [] s.op = "raw" -> LET h == PopElement(el, a, mode)
                       IN IF h.pos = 0 THEN [el |-> h.el, r |-> "!"]
                          ELSE [el |-> SetKid(h.el, h.pos, Emptied(h.el.kids[h.pos])),
                                r |-> Show(OptText(h.el.kids[h.pos].text))]
    [] s.op = "find" -> LET h == Find(el, a, mode, TRUE, TRUE)
                        IN IF h.pos = 0 THEN [el |-> h.el, r |-> "!"]
                           ELSE LET p == PopText(h.el.kids[h.pos])
                                IN [el |-> SetKid(h.el, h.pos, p.el), r |-> Show(OptText(p.v))]
    [] s.op = "peek" -> LET h == Find(el, a, mode, FALSE, FALSE)
                        IN [el |-> h.el, r |-> IF h.pos = 0 THEN "!" ELSE "@"]
    [] s.op = "path" -> LET r == PathLen(el, SplitBy(a, "/"), 1, mode) IN [el |-> r.el, r |-> ToString(r.n)]
    [] s.op = "elems" -> [el |-> [el EXCEPT !.kids = <<>>, !.idx = 0], r |-> ToString(Len(el.kids))]
    [] s.op = "unbound" -> [el |-> el, r |-> ToString(Len(Unbound(el)))]
    [] s.op = "empty" -> [el |-> el, r |-> IF IsEmptyR(el) THEN "T" ELSE "F"]
    [] s.op = "step" -> LET h == Find(el, a, mode, FALSE, FALSE)     \* there is one: pass over the next element
                        IN IF h.pos = 0 THEN [el |-> h.el, r |-> "!"] ELSE [el |-> [h.el EXCEPT !.idx = @ + 1], r |-> "."]
    [] s.op = "tag" -> [el |-> el, r |-> el.tag]
    [] s.op = "native" -> [el |-> el, r |-> el.tag \o "/" \o ToString(Len(el.kids)) \o "/" \o ToString(Len(el.attrs)) \o "/" \o el.text]
    [] s.op = "sub" -> LET h == PopElement(el, a, mode)     \* go on with the element taken
                       IN IF h.pos = 0 THEN [el |-> h.el, r |-> "!"]
                          ELSE LET p == RunSteps(h.el.kids[h.pos], s.sub)
                               IN [el |-> SetKid(h.el, h.pos, p.el), r |-> "(" \o p.out \o ")"]
    [] s.op = "snap" -> [el |-> el, r |-> "<" \o RunSteps(el, s.sub).out \o ">"]      \* on a snapshot, thrown away
    [] s.op = "swap" -> LET p == RunSteps(el, s.sub) IN [el |-> p.el, r |-> "<" \o p.out \o ">"]    \* on a snapshot, applied
RunSteps(el, steps) ==                        \* [el, out]
  Fold(LAMBDA acc, s : LET q == Step(acc.el, s) IN [el |-> q.el, out |-> acc.out \o q.r \o ";"],
       [el |-> el, out |-> ""], steps)
\* the hook of field `name`, called with class c
RunScript(el, sc, c, name) ==                 \* [el, w]
  LET r == Fold(LAMBDA acc, s : LET q == IF s.op = "cls" THEN [el |-> acc.el, r |-> c]
                                         ELSE IF s.op = "name" THEN [el |-> acc.el, r |-> name] ELSE Step(acc.el, s)
                                IN [el |-> q.el, out |-> acc.out \o q.r \o ";"],
                [el |-> el, out |-> ""], sc.steps)
  IN [el |-> r.el, w |-> IF sc.ret = "none" THEN NoneV ELSE IF sc.ret = "" THEN TextW(r.out) ELSE TextW(sc.ret)]

RECURSIVE Dec(_, _, _, _, _, _), DecList(_, _, _, _, _, _, _, _, _), DecPath(_, _, _, _, _, _, _),
          DecAlts(_, _, _, _, _, _, _, _, _), DecTags(_, _, _, _, _, _, _), DecModel(_, _, _, _)

(* o: [ctx, eas] options of the call *)
DecText(pl, el, o) ==                         \* text of `el`, its nil mark considered
  LET n == IF pl.nil THEN PopNil(el) ELSE [el |-> el, nil |-> FALSE]
      p == PopText(n.el)
  IN IF n.nil THEN [el |-> n.el, v |-> NoneV]
     ELSE [el |-> p.el, v |-> IF p.v # "" THEN TextW(p.v) ELSE IF o.eas THEN TextW("") ELSE NoneV]
DecAttrs(pl, el) ==
  LET p == PopAttrs(el)
  IN [el |-> p.el,
      v |-> IF ~Has(p.v) THEN NoneV
            ELSE [k |-> "wd", kv |-> IF pl.loc THEN Fold(LAMBDA acc, a : APut(acc, LocalName(a[1]), a[2]), <<>>, The(p.v))
                                     ELSE The(p.v)]]
RawOf(el) == [k |-> "raw", t |-> Plain(el)]

Dec(R, pl, el, sm, loc, o) ==
  IF pl.p = "proxy" /\ R[pl.c].status # "ok" THEN Asr(el, sm)
  ELSE IF pl.comp THEN Ret(el, sm, NoneV)
  ELSE CASE
     pl.p = "text" -> LET r == DecText(pl, el, o) IN Ret(r.el, sm, r.v)
  [] pl.p = "attr" -> LET p == PopAttr(el, pl.n) IN Ret(p.el, sm, IF Has(p.v) THEN TextW(The(p.v)) ELSE NoneV)
  [] pl.p = "elem" ->
       LET h == PopElement(el, pl.n, pl.mode)
       IN IF h.pos = 0 THEN Ret(h.el, sm, NoneV)
          ELSE LET kid == h.el.kids[h.pos]
                   r == DecText(pl, kid, o)
               IN Ret(SetKid(h.el, h.pos, r.el), APut(sm, loc, kid.line), r.v)
  [] pl.p = "attrs" -> LET r == DecAttrs(pl, el) IN Ret(r.el, sm, r.v)
  [] pl.p = "melem" ->
       LET h == PopElement(el, pl.n, pl.mode)
       IN IF h.pos = 0 THEN Ret(h.el, sm, NoneV)
          ELSE LET kid == h.el.kids[h.pos]
                   r == DecAttrs(pl, kid)
               IN Ret(SetKid(h.el, h.pos, r.el), APut(sm, loc, kid.line), r.v)
  [] pl.p = "raw" ->
       LET h == PopElement(el, pl.n, pl.mode)
       IN IF h.pos = 0 THEN Ret(h.el, sm, NoneV)
          ELSE LET kid == h.el.kids[h.pos]
               IN Ret(SetKid(h.el, h.pos, Emptied(kid)), APut(sm, loc, kid.line), RawOf(kid))
  [] pl.p = "wrap" -> DecPath(R, pl, 1, el, sm, loc, o)
  [] pl.p = "list" -> DecList(R, pl.in, el, sm, loc, o, 0, <<>>, <<>>)
  [] pl.p = "tuple" ->
       LET go == Fold(LAMBDA acc, i :
                        IF acc.x = "A" THEN acc
                        ELSE LET r == Dec(R, pl.ins[i], acc.el, acc.sm, Append(loc, IdxTok(i - 1)), o)
                             IN [el |-> r.el, sm |-> r.sm, x |-> IF r.x = "A" THEN "A" ELSE "",
                                 xs |-> Append(acc.xs, r.v),
                                 errs |-> acc.errs \o Prefix(<<IdxTok(i - 1)>>, r.errs)],
                      [el |-> el, sm |-> sm, x |-> "", xs |-> <<>>, errs |-> <<>>], [i \in DOMAIN pl.ins |-> i])
       IN IF go.x = "A" THEN Asr(go.el, go.sm)
          ELSE IF go.errs # <<>> THEN Exc(go.el, go.sm, go.errs, "")
          ELSE IF AllIn(go.xs, LAMBDA w : w.k = "none") THEN Ret(go.el, go.sm, NoneV)
          ELSE Ret(go.el, go.sm, [k |-> "wl", xs |-> go.xs])
  [] pl.p = "proxy" ->
       LET h == PopElement(el, pl.n, pl.mode)
       IN IF h.pos = 0 THEN Ret(h.el, sm, NoneV)
          ELSE LET kid == h.el.kids[h.pos]
                   n == PopNil(kid)
                   sm1 == APut(sm, loc, kid.line)
               IN IF n.nil THEN Ret(SetKid(h.el, h.pos, n.el), sm1, NoneV)
                  ELSE LET r == DecModel(R, pl.c, n.el, o)
                       IN [r EXCEPT !.el = SetKid(h.el, h.pos, r.el), !.sm = sm1]
  [] pl.p = "unionm" -> DecAlts(R, pl.alts, 1, el, sm, loc, o, <<>>, Nil)
  [] pl.p = "tagged" -> DecTags(R, pl, 1, el, sm, loc, o)

DecPath(R, pl, i, el, sm, loc, o) ==          \* i-th part of the path is looked for in el
  LET h == Find(el, pl.path[i], pl.mode, TRUE, TRUE)
  IN IF h.pos = 0 THEN Ret(h.el, sm, NoneV)
     ELSE LET kid == h.el.kids[h.pos]
              r == IF i = Len(pl.path) THEN Dec(R, pl.in, kid, APut(sm, loc, kid.line), loc, o)
                   ELSE DecPath(R, pl, i + 1, kid, sm, loc, o)
          IN [r EXCEPT !.el = SetKid(h.el, h.pos, r.el)]

DecList(R, in, el, sm, loc, o, i, xs, errs) ==
  LET r == Dec(R, in, el, sm, Append(loc, IdxTok(i)), o)
  IN IF r.x = "A" THEN Asr(r.el, r.sm)
     ELSE IF r.x = "V" THEN DecList(R, in, r.el, r.sm, loc, o, i + 1, xs, errs \o Prefix(<<IdxTok(i)>>, r.errs))
     ELSE IF r.v.k # "none" THEN DecList(R, in, r.el, r.sm, loc, o, i + 1, Append(xs, r.v), errs)
     ELSE IF errs # <<>> THEN Exc(r.el, r.sm, errs, "")
     ELSE Ret(r.el, r.sm, IF xs = <<>> THEN NoneV ELSE [k |-> "wl", xs |-> xs])

\* every alternative starts from the same element; the first failure decides what is consumed
DecAlts(R, alts, i, el, sm, loc, o, errs, failed) ==
  IF i > Len(alts)
  THEN (IF Has(failed) THEN Exc(The(failed), sm, Flat(Map(LAMBDA e : e[2], errs)), "") ELSE Ret(el, sm, NoneV))
  ELSE LET r == Dec(R, alts[i], el, sm, loc, o)
       IN IF r.x = "A" THEN r
          ELSE IF r.x = "V"
          THEN DecAlts(R, alts, i + 1, el, r.sm, loc, o,
                       APut(errs, r.title, Prefix(<<r.title>>, r.errs)),
                       IF Has(failed) THEN failed ELSE Some(r.el))
          ELSE IF r.v.k # "none" THEN r
          ELSE DecAlts(R, alts, i + 1, el, r.sm, loc, o, errs, failed)

DecTags(R, pl, i, el, sm, loc, o) ==
  IF i > Len(pl.alts) THEN Ret(el, sm, NoneV)
  ELSE LET alt == pl.alts[i][2]
           h == Find(el, alt.n, pl.mode, FALSE, FALSE)
       IN IF h.pos # 0 /\ GetAttr(h.el.kids[h.pos], pl.attr) = Some(pl.alts[i][1])
          THEN Dec(R, alt, h.el, APut(sm, loc, h.el.kids[h.pos].line), loc, o)
          ELSE DecTags(R, pl, i + 1, h.el, sm, loc, o)

ExtraErrs(el) ==
  Map(LAMBDA u : [loc |-> u.path \o (IF Has(u.at) THEN <<"@" \o The(u.at)>> ELSE <<>>),
                  type |-> "extra_forbidden", line |-> u.line, msg |-> "Extra inputs are not permitted"], Unbound(el))

\* one field of a model: st = [el, sm, x, kw, errs]
DecField(R, c, st, f, o) ==
  IF st.x = "A" THEN st
  ELSE LET loc == <<f.key>>
           sm1 == APut(st.sm, loc, st.el.line)
           sc == IF f.vh # <<>> THEN RunScript(st.el, The(f.vh), c, f.name) ELSE [el |-> st.el, w |-> NoneV]
           r == IF f.vh # <<>> THEN Ret(sc.el, sm1, sc.w) ELSE Dec(R, f.plan, st.el, sm1, loc, o)
       IN [el |-> r.el, sm |-> r.sm, x |-> IF r.x = "A" THEN "A" ELSE "",
           kw |-> IF r.x = "" /\ r.v.k # "none" THEN APut(st.kw, f.key, r.v) ELSE st.kw,
           errs |-> IF r.x = "V" THEN st.errs \o Prefix(<<f.key>>, r.errs) ELSE st.errs]
ConvF(R, f, w, o) == Val(R, f.typ, w, o.ctx)

DecModel(R, c, el, o) ==
  LET cls == R[c]
      start == [el |-> el, sm |-> <<<<<<>>, el.line>>>>, x |-> "", kw |-> <<>>, errs |-> <<>>]
  IN IF cls.kind = "root"
     THEN LET r == Dec(R, cls.xf[1].plan, el, start.sm, <<>>, o)
              extra == IF cls.extra = "forbid" THEN ExtraErrs(r.el) ELSE <<>>
              m == MakeRoot(R, c, IF r.v.k = "none" THEN UndefW ELSE r.v, cls.uerr, LAMBDA f, w : ConvF(R, f, w, o))
          IN IF r.x = "A" THEN r
             ELSE IF r.x = "V" THEN [r EXCEPT !.title = c]
             ELSE IF extra # <<>> THEN Exc(r.el, <<>>, extra, c)
             ELSE IF ~m.ok THEN Exc(r.el, <<>>, Lined(r.sm, m.errs), c)
             ELSE Ret(r.el, <<>>, m.v)
     ELSE LET st == Fold(LAMBDA s, f : DecField(R, c, s, f, o), start, cls.xf)
              extra == IF cls.extra = "forbid" THEN ExtraErrs(st.el) ELSE <<>>
              m == MakeWith(R, c, st.kw, LAMBDA f, w : ConvF(R, f, w, o))
          IN IF st.x = "A" THEN Asr(st.el, <<>>)
             ELSE IF st.errs # <<>> THEN Exc(st.el, <<>>, st.errs, c)
             ELSE IF extra # <<>> THEN Exc(st.el, <<>>, extra, c)
             ELSE IF ~m.ok THEN Exc(st.el, <<>>, Lined(st.sm, m.errs), c)
             ELSE Ret(st.el, <<>>, m.v)

(* The whole parse: [x, v, errs, ...]; x = "R" another root name *)
Parse(R, c, doc, o) ==
  IF R[c].status # "ok" THEN Asr(doc, <<>>)
  ELSE IF doc.tag # R[c].el THEN [Ret(doc, <<>>, NoneV) EXCEPT !.x = "R"]
  ELSE DecModel(R, c, Init(doc), o)

-----------------------------------------------------------------------------
(* Writing.  fl: [se, en, eu]; result [w, x], x = "A": a partial class was met *)
Wrote(w) == [w |-> w, x |-> ""]

EncText(pl, w, v) ==
  IF v.k = "none" THEN SetText(IF pl.nil THEN SetAttr(w, XSINIL, "true") ELSE w, "")
  ELSE SetText(w, PrintScalar(pl.ty, v))
EncMap(pl, w, v) ==
  LET t == pl.typ
      ValTy(key) == IF t.k = "dict" THEN Scalar(t.of)
                    ELSE LET S == {i \in DOMAIN t.of : PrimV("str:" \o t.of[i][1]) = key}
                         IN IF S = {} THEN "str" ELSE Scalar(t.of[MinOf(S)][2])
      KeyText(key) == IF t.k = "dict" THEN PrintScalar(Scalar(t.key), key) ELSE PrintScalar("str", key)
      one(acc, e) == SetAttr(acc, UriOf(pl.ns, KeyText(e[1])),
                             IF e[2].k = "none" THEN "" ELSE PrintScalar(ValTy(e[1]), e[2]))
  IN IF v.k = "none" THEN w ELSE Fold(one, w, v.kv)
SizedEmpty(v) == (v.k = "l" /\ v.xs = <<>>) \/ (v.k = "d" /\ v.kv = <<>>) \/ (v.k = "p" /\ v.v \in {"str:", "bytes:"})
RawEmpty(t) == t.text = "" /\ t.tail = "" /\ t.attrs = {} /\ t.kids = <<>>
RECURSIVE WFromPlain(_)
WFromPlain(t) == [tag |-> t.tag, text |-> t.text, tail |-> t.tail, attrs |-> SetToSeq(t.attrs),
                  kids |-> Map(WFromPlain, t.kids), nsmap |-> <<>>]

\* `v` is an instance of class c or of one derived from it
InstanceOf(R, v, c) == v.k = "m" /\ SomeIn(R[v.c].mro, LAMBDA n : n = c)
FieldOf(v, n) == The(AGet(v.f, n))
RECURSIVE Enc(_, _, _, _, _), EncModel(_, _, _, _, _), PutPath(_, _, _, _, _, _)
CompValue(comp, v) == IF comp.src # <<>> THEN FieldOf(v, comp.src[1]) ELSE comp.const[1]

ShapeOf(v) == CASE v.k = "none" -> "NoneType" [] v.k = "p" -> SplitBy(v.v, ":")[1] [] v.k = "l" -> v.t
                [] v.k = "d" -> "dict" [] v.k = "m" -> v.c [] v.k = "raw" -> "Element"
\* a custom writer: sees the value of the field (its text, its type), the object and the field's name
PutScript(w, sc, text, value, c, name) ==
  LET t(s) == CASE s.v = "$" -> text [] s.v = "#" -> ShapeOf(value) [] s.v = "%" -> c [] s.v = "@" -> name [] OTHER -> s.v
      one(acc, s) ==
        CASE s.op = "text" -> SetText(acc, t(s))
          [] s.op = "attr" -> SetAttr(acc, s.a, t(s))
          [] s.op = "elem" -> AddKid(acc, SetText(NewEl(s.a, <<>>), t(s)))
          [] s.op = "path" -> IF LastTag(acc) = Some(s.a)
                              THEN [acc EXCEPT !.kids[Len(acc.kids)] = SetText(acc.kids[Len(acc.kids)], t(s))]
                              ELSE AddKid(acc, SetText(NewEl(s.a, <<>>), t(s)))
          [] s.op = "attrs" -> [acc EXCEPT !.attrs = <<<<s.a, t(s)>>>>]
          [] s.op = "empty" -> SetAttr(acc, s.a, IF IsEmptyEl(acc) THEN "T" ELSE "F")
          [] s.op = "rm" -> acc                    \* appends an element and removes it
          [] s.op = "deep" -> LET in(k) == IF LastTag(k) = Some("v1")
                                           THEN [k EXCEPT !.kids[Len(k.kids)] = SetText(k.kids[Len(k.kids)], t(s))]
                                           ELSE AddKid(k, SetText(NewEl("v1", <<>>), t(s)))
                              IN IF LastTag(acc) = Some(s.a) THEN [acc EXCEPT !.kids[Len(acc.kids)] = in(acc.kids[Len(acc.kids)])]
                                 ELSE AddKid(acc, in(NewEl(s.a, <<>>)))
  IN Fold(one, w, sc.steps)

EncModel(R, c, w, v, fl) ==
  LET cls == R[c]
      fl1 == IF Has(cls.set.skip) THEN [fl EXCEPT !.se = The(cls.set.skip)] ELSE fl
      value(f) == IF f.comp THEN CompValue(f.cdef, v) ELSE FieldOf(v, f.name)
      one(acc, f) ==
        IF acc.x # "" THEN acc
        ELSE IF f.excl \/ (fl.eu /\ f.name \notin v.s) THEN acc
        ELSE IF f.sh # <<>>
        THEN Wrote(PutScript(acc.w, The(f.sh), IF value(f).k = "p" /\ "ty" \in DOMAIN Core(f.typ)
                                               THEN PrintScalar(Core(f.typ).ty, value(f)) ELSE "None",
                             value(f), v.c, f.name))
        ELSE Enc(R, f.plan, acc.w, value(f), fl1)
  IN IF cls.kind = "root"
     THEN (IF fl.eu /\ "root" \notin v.s THEN Wrote(w) ELSE Enc(R, cls.xf[1].plan, w, FieldOf(v, "root"), fl1))
     ELSE Fold(one, Wrote(w), cls.xf)

Enc(R, pl, w, v, fl) ==
  LET none == v.k = "none" IN
  CASE pl.p = "text" -> Wrote(IF none /\ (fl.se \/ fl.en) THEN w ELSE EncText(pl, w, v))
    [] pl.p = "attr" -> Wrote(IF none /\ (fl.se \/ fl.en) THEN w
                              ELSE SetAttr(w, pl.n, IF none THEN "" ELSE PrintScalar(pl.ty, v)))
    [] pl.p = "elem" ->
         IF none /\ (fl.se \/ fl.en) THEN Wrote(w)
         ELSE LET k == EncText(pl, NewEl(pl.n, pl.nsmap), v)
              IN Wrote(IF fl.se /\ IsEmptyEl(k) THEN w ELSE AddKid(w, k))
    [] pl.p = "attrs" -> Wrote(EncMap(pl, w, v))
    [] pl.p = "melem" ->
         IF (none /\ (fl.se \/ fl.en)) \/ (fl.se /\ SizedEmpty(v)) THEN Wrote(w)
         ELSE LET k == EncMap(pl, NewEl(pl.n, pl.nsmap), v)
              IN Wrote(IF fl.se /\ IsEmptyEl(k) THEN w ELSE AddKid(w, k))
    [] pl.p = "raw" -> Wrote(IF none \/ (fl.se /\ RawEmpty(v.t)) THEN w ELSE AddKid(w, WFromPlain(v.t)))
    [] pl.p = "wrap" ->
         IF none \/ (fl.se /\ SizedEmpty(v)) THEN Wrote(w)
         ELSE PutPath(R, pl, w, 1, v, fl)
    [] pl.p = "list" ->
         IF none THEN Wrote(w)
         ELSE Fold(LAMBDA acc, x : IF acc.x # "" \/ (fl.se /\ x.k = "none") THEN acc ELSE Enc(R, pl.in, acc.w, x, fl),
                   Wrote(w), v.xs)
    [] pl.p = "tuple" ->
         IF none THEN Wrote(w)
         ELSE Fold(LAMBDA acc, i : IF acc.x # "" THEN acc ELSE Enc(R, pl.ins[i], acc.w, v.xs[i], fl),
                   Wrote(w), [i \in DOMAIN pl.ins |-> i])
    [] pl.p = "proxy" ->
         IF R[pl.c].status # "ok" THEN [w |-> w, x |-> "A"]
         ELSE IF none THEN Wrote(IF pl.nil /\ ~fl.en THEN AddKid(w, SetAttr(NewEl(pl.n, pl.nsmap), XSINIL, "true")) ELSE w)
         ELSE LET r == EncModel(R, pl.c, NewEl(pl.n, pl.nsmap), v, fl)
              IN IF r.x # "" THEN [w |-> w, x |-> r.x]
                 ELSE Wrote(IF fl.se /\ IsEmptyEl(r.w) THEN w ELSE AddKid(w, r.w))
    [] pl.p = "unionm" ->
         LET exact == {i \in DOMAIN pl.alts : v.k = "m" /\ pl.alts[i].c = v.c}
             sub == {i \in DOMAIN pl.alts : InstanceOf(R, v, pl.alts[i].c)}
             pick == IF exact # {} THEN exact ELSE sub
         IN IF pick = {} THEN Wrote(w) ELSE Enc(R, pl.alts[MinOf(pick)], w, v, fl)
    [] pl.p = "tagged" ->
         IF none THEN Wrote(w)
         ELSE LET d == PrintScalar("str", FieldOf(v, pl.disc))
              IN IF ~AHas(pl.alts, d) THEN Wrote(w) ELSE Enc(R, The(AGet(pl.alts, d)), w, v, fl)

\* down the path from its i-th part; elements left empty go again under skip_empty
PutPath(R, pl, w, i, v, fl) ==
  IF i > Len(pl.path) THEN Enc(R, pl.in, w, v, fl)
  ELSE LET reuse == LastTag(w) = Some(pl.path[i])
           kid == IF reuse THEN w.kids[Len(w.kids)] ELSE NewEl(pl.path[i], pl.nsmap)
           rest == IF reuse THEN SubSeq(w.kids, 1, Len(w.kids) - 1) ELSE w.kids
           r == PutPath(R, pl, kid, i + 1, v, fl)
       IN IF r.x # "" THEN [w |-> w, x |-> r.x]
          ELSE IF fl.se /\ IsEmptyEl(r.w) THEN Wrote([w EXCEPT !.kids = rest])
          ELSE Wrote([w EXCEPT !.kids = Append(rest, r.w)])

(* The whole document *)
WriteDoc(R, v, fl) ==
  IF R[v.c].status # "ok" THEN [w |-> NewEl("", <<>>), x |-> "A"]
  ELSE EncModel(R, v.c, NewEl(R[v.c].el, R[v.c].set.nsmap), v, fl)
=============================================================================
