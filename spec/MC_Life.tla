------------------------------- MODULE MC_Life ------------------------------
(* Three classes that mention one another, in nine patterns (chain, cycle,    *)
(* self reference, inheritance, union, root model, unknown names, a class     *)
(* that cannot be translated once its names are known), brought into being in *)
(* every order: definitions, rebuilds, instances built and documents read in  *)
(* between.  State: the registry.                                             *)
EXTENDS MCBase

NAttr == WithNone([Fld0("n", OptT(IntT)) EXCEPT !.ent = <<Attr("n")>>])
Ref(f, t) == WithNone([Fld0(f, OptT(t)) EXCEPT !.ent = <<Elem(f)>>])
M(name, fs) == [Cls0(name) EXCEPT !.fields = <<NAttr>> \o fs, !.fwd = TRUE]
RootM(name, t) == [Cls0(name) EXCEPT !.kind = "root", !.fwd = TRUE, !.fields = <<Fld0("root", t)>>]
Patterns == <<
  <<M("A", <<Ref("b", ModelT("B"))>>), M("B", <<Ref("c", ListT(ModelT("C")))>>), M("C", <<>>)>>,
  <<M("A", <<Ref("b", ModelT("B"))>>), M("B", <<Ref("c", ModelT("C"))>>), M("C", <<Ref("a", ModelT("A"))>>)>>,
  <<M("A", <<Ref("a", ListT(ModelT("A"))), Ref("b", ModelT("B"))>>), M("B", <<Ref("b", ModelT("B"))>>), M("C", <<Ref("b", ModelT("B"))>>)>>,
  <<M("A", <<Ref("c", ModelT("C"))>>), [M("B", <<Ref("a", ModelT("A"))>>) EXCEPT !.bases = <<"A">>], M("C", <<Ref("b", ModelT("B"))>>)>>,
  <<M("A", <<Ref("b", UnionT(<<ModelT("B"), ModelT("C")>>))>>), M("B", <<>>), M("C", <<Ref("a", ModelT("A"))>>)>>,
  <<M("A", <<Ref("c", ModelT("C")), [Fld0("z", ListT(ListT(StrT))) EXCEPT !.ent = <<>>]>>), M("B", <<Ref("a", ModelT("A"))>>), M("C", <<>>)>>,
  <<RootM("A", ModelT("B")), M("B", <<Ref("c", ModelT("C"))>>), M("C", <<Ref("b", ListT(ModelT("B")))>>)>>,
  <<M("A", <<Ref("b", ModelT("Z"))>>), M("B", <<Ref("a", ModelT("A"))>>), M("C", <<>>)>>,
  <<M("A", <<Ref("b", ModelT("B"))>>), [M("B", <<>>) EXCEPT !.tag = <<"bb">>, !.ns = <<"p">>, !.nsmap = <<<<<<"p", "urn:p">>>>>>],
    [M("C", <<Ref("a", ModelT("A"))>>) EXCEPT !.bases = <<"B">>]>>
>>
Names == <<"A", "B", "C">>
N(tag, n, kids) == [Node(tag, "", kids) EXCEPT !.attrs = <<<<"n", n>>>>]
\* a document that goes two levels down every reference of a class
RECURSIVE DocTo(_, _, _, _)
DocTo(ds, c, tag, depth) ==
  LET d == CHOOSE x \in Range(ds) : x.name = c
      bs == IF d.bases = <<>> THEN <<>> ELSE (CHOOSE x \in Range(ds) : x.name = d.bases[1]).fields
      refs == Filter(bs \o d.fields, LAMBDA f : f.ent # <<>> /\ f.ent[1].loc = "element" /\ (\E x \in Range(ds) : x.name \in Refs(f.typ)))
  IN IF d.kind = "root" THEN Node(tag, "", <<DocTo(ds, "B", "B", depth)>>)
     ELSE N(tag, ToString(depth), IF depth = 0 THEN <<>>
                                  ELSE Map(LAMBDA f : DocTo(ds, CHOOSE n \in Refs(f.typ) : TRUE, f.name, depth - 1), refs))
ElName(R, d) == IF d.name \in DOMAIN R /\ R[d.name].el # "" THEN R[d.name].el ELSE d.name

VARIABLES pat, R, hist, tried
vars == <<pat, R, hist, tried>>
\* quick: every step out of every registry; deep: every history up to a length
View == IF Deep THEN <<pat, R, tried, hist>> ELSE <<pat, R, tried>>
Bound == Deep => Len(hist) <= 5
Ds == Patterns[pat]
Def(i) == Ds[i]
Kw(i) == IF Def(i).kind = "root" THEN <<>> ELSE <<<<"n", PrimV("int:1")>>>>

Probe(r, i) == ParseEv("p" \o ToString(i), Names[i], DocTo(Ds, Names[i], ElName(r, Def(i)), 2))
NumH(h) == Fold(LAMBDA a, e : (a * 7 + (CASE e.e = "define" -> 1 [] e.e = "rebuild" -> 2 [] OTHER -> 3)) % 1009, pat, h)
Took(r, ev) ==
  /\ R' = r /\ hist' = Append(hist, ev) /\ pat' = pat
  /\ IF Turn(NumH(Append(hist, ev)))
     THEN Export(<<>>, Append(hist, ev) \o Map(LAMBDA i : Probe(r, i), SelectSeq(<<1, 2, 3>>, LAMBDA i : Names[i] \in DOMAIN r))) ELSE TRUE
Dfn(i) == /\ Names[i] \notin tried
          /\ \A b \in Range(Def(i).bases) : b \in DOMAIN R
          /\ tried' = tried \cup {Names[i]}
          /\ Took(DoDefine(R, Def(i)).R, [e |-> "define", d |-> Def(i)])
Rbd(i) == Names[i] \in DOMAIN R /\ UNCHANGED tried /\ Took(DoRebuild(R, Names[i]).R, [e |-> "rebuild", c |-> Names[i]])
New(i) == /\ Names[i] \in DOMAIN R /\ Def(i).kind # "root" /\ Def(i).fields[Len(Def(i).fields)].name # "z" /\ UNCHANGED tried
          /\ Took(DoNew(R, Names[i], Kw(i)).R, NewEv("o" \o ToString(Len(hist)), Names[i], Kw(i)))
Init0 == pat \in DOMAIN Patterns /\ R = Reg0 /\ hist = <<>> /\ tried = {}
Next == \E i \in 1 .. 3 : Dfn(i) \/ Rbd(i) \/ New(i)
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the registry when everything is defined and rebuilt in the order of the alphabet, twice
Canon == LET d == Fold(LAMBDA r, x : DoDefine(r, x).R, Reg0, Ds)
             b(r) == Fold(LAMBDA q, x : IF x.name \in DOMAIN q THEN DoRebuild(q, x.name).R ELSE q, r, Ds)
         IN b(b(d))
Ok(c) == c \in DOMAIN R /\ R[c].status = "ok"
\* C12: whatever the order, a class that is complete is the same class
Confluence == \A c \in DOMAIN R : Ok(c) => c \in DOMAIN Canon /\ Canon[c].status = "ok" /\ R[c].xf = Canon[c].xf /\ R[c].el = Canon[c].el
\* C12: a class is complete only if every name it depends on is known, and then a rebuild completes it or rejects it
NoEarly == \A c \in DOMAIN R : Ok(c) => Resolved(R, c)
Completes == \A c \in DOMAIN R : R[c].status = "partial" /\ Resolved(R, c) =>
               LET r == DoRebuild(R, c) IN (r.x = "") = (r.R[c].status = "ok")
\* C12: a class waiting for a name refuses to read; a complete one reads alike however it came to be
ReadsAlike == \A i \in 1 .. 3 : Names[i] \in DOMAIN R =>
  LET doc == DocTo(Ds, Names[i], ElName(R, Def(i)), 2)
      r == Parse(R, Names[i], doc, O0)
  IN IF R[Names[i]].status # "ok" THEN r.x = "A"
     ELSE LET q == Parse(Canon, Names[i], doc, O0)
          \* what it mentions may itself still wait
          IN r.x = "A" \/ (r.x = q.x /\ r.v = q.v)
\* nothing complete ever becomes incomplete, nothing is lost
Monotone == [][\A c \in DOMAIN R : c \in DOMAIN R' /\ (R[c].status = "ok" => R'[c] = R[c])]_vars
\* C12: a failed rebuild leaves the registry as usable as it was
Harmless == [][\A c \in DOMAIN R : R'[c].status \in {R[c].status, "ok", "fail"}]_vars
=============================================================================
