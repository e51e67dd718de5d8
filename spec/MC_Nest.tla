------------------------------ MODULE MC_Nest ------------------------------
(* Small scope: one to three optional fields reached through wrappers, nested *)
(* wrappers and sub-models that share the names w and v; every forest of up   *)
(* to four elements (every text and attribute in it different); the three     *)
(* search modes; extra data ignored or forbidden.  All combinations.          *)
EXTENDS MCBase

KModel == [Cls0("K") EXCEPT !.fields = <<WithNone([Fld0("a", OptT(StrT)) EXCEPT !.ent = <<Elem("a")>>])>>]
Menu == <<  \* [typ, ent, path]
  [t |-> StrT, e |-> Elem("a"), p |-> <<"a">>],
  [t |-> StrT, e |-> WrapIn("w", Elem("a")), p |-> <<"w", "a">>],
  [t |-> StrT, e |-> WrapIn("w", Elem("b")), p |-> <<"w", "b">>],
  [t |-> StrT, e |-> WrapIn("w/v", Elem("a")), p |-> <<"w", "v", "a">>],
  [t |-> StrT, e |-> WrapIn("w", Attr("n")), p |-> <<"w", "@n">>],
  [t |-> ListT(StrT), e |-> WrapIn("w", Elem("a")), p |-> <<"w", "a">>],
  [t |-> ModelT("K"), e |-> Elem("w"), p |-> <<"w", "a">>],
  [t |-> ListT(ModelT("K")), e |-> Elem("w"), p |-> <<"w", "a">>],
  [t |-> StrT, e |-> WrapIn("v", WrapIn("w", Elem("a"))), p |-> <<"v", "w", "a">>],
  [t |-> ListT(ModelT("K")), e |-> WrapIn("v", Elem("w")), p |-> <<"v", "w", "a">>] >>
Modes == <<"strict", "ordered", "unordered">>
Field(i, k) == WithNone([Fld0("f" \o ToString(i), OptT(Menu[k].t)) EXCEPT !.ent = <<Menu[k].e>>])
ClassOf(c, x) == [Cls0("M") EXCEPT !.mode = <<Modes[c.mode]>>, !.extra = <<x>>, !.fields = [i \in DOMAIN c.ks |-> Field(i, c.ks[i])]]
Defs(c, x) == <<[KModel EXCEPT !.mode = <<Modes[c.mode]>>], ClassOf(c, x)>>
Configs == {[ks |-> ks, mode |-> m] : ks \in Seqs(DOMAIN Menu, 1, 2), m \in {1, 2, 3}}

\* every forest of n elements: v, w inside, a, b at the leaves (an empty wrapper is a leaf too)
RECURSIVE Forests(_)
Forests(n) ==
  IF n = 0 THEN {<<>>}
  ELSE UNION {{<<[t |-> t, k |-> k]>> \o rest : t \in (IF i = 0 THEN {"a", "b", "w"} ELSE {"v", "w"}), k \in Forests(i), rest \in Forests(n - 1 - i)}
              : i \in 0 .. n - 1}
Size == IF Deep THEN 4 ELSE 3
AllForests == UNION {Forests(n) : n \in 0 .. Size}
\* [ns: the nodes, k: the next number]: texts t1, t2.., attributes of every second wrapper u1, u2..
RECURSIVE Label(_, _)
Label(f, k) ==
  IF f = <<>> THEN [ns |-> <<>>, k |-> k]
  ELSE LET h == Head(f)
           in == Label(h.k, k + 1)
           leaf == h.t \in {"a", "b"}
           node == [Node(h.t, IF leaf THEN "t" \o ToString(k) ELSE "", in.ns)
                    EXCEPT !.attrs = IF h.t = "w" /\ k % 2 = 1 THEN <<<<"n", "u" \o ToString(k)>>>> ELSE <<>>]
           rest == Label(Tail(f), in.k)
       IN [ns |-> <<node>> \o rest.ns, k |-> rest.k]
DocF(f) == Node("M", "", Label(f, 1).ns)
RECURSIVE DNum(_)
DNum(f) == Fold(LAMBDA a, n : (a * 31 + Tag2Num(n.t) + 7 * DNum(n.k)) % 100003, 5, f)

VARIABLES cfg, f, out, rel
vars == <<cfg, f, out, rel>>
Nothing == <<[t |-> "-", k |-> <<>>]>>
Init0 == cfg \in Configs /\ f = Nothing /\ out = <<>> /\ rel = <<>>
Num(c) == Fold(LAMBDA a, k : a * 10 + k, c.mode, c.ks)
Next == /\ f = Nothing /\ cfg' = cfg
        /\ f' \in AllForests
        /\ out' = Parse(RegOf(Defs(cfg, "forbid")), "M", DocF(f'), O0)
        /\ rel' = Parse(RegOf(Defs(cfg, "ignore")), "M", DocF(f'), O0)
        /\ LET n == Num(cfg) * 13 + DNum(f')
           IN IF Turn(n) THEN Export(Defs(cfg, IF n % 2 = 0 THEN "forbid" ELSE "ignore"), <<ParseEv("o", "M", DocF(f'))>>) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == f # Nothing
\* all the data of the document: <<path, value>>
RECURSIVE Data(_, _)
Data(e, p) == {<<p \o <<"@" \o a[1]>>, a[2]>> : a \in Range(e.attrs)} \cup (IF e.text = "" THEN {} ELSE {<<p, e.text>>})
              \cup UNION {Data(e.kids[i], p \o <<e.kids[i].tag>>) : i \in DOMAIN e.kids}
All == Data(DocF(f), <<>>)
RECURSIVE Scal(_)
Scal(v) == CASE v.k = "p" -> <<SubSeq(v.v, 5, Len(v.v))>> [] v.k = "l" -> Flat(Map(Scal, v.xs))
             [] v.k = "m" -> Flat(Map(LAMBDA e : Scal(e[2]), v.f)) [] OTHER -> <<>>
Bound(i) == Scal(rel.v.f[i][2])
AllBound == Scal(rel.v)
\* C06: what a field gets is found at its place in the document, and is given to no other field
Placed == Done => /\ rel.x = ""
                  /\ \A i \in DOMAIN cfg.ks : \A t \in Range(Bound(i)) : <<Menu[cfg.ks[i]].p, t>> \in All
Once == Done => Len(AllBound) = Cardinality(Range(AllBound))
\* C04, C05: everything else is reported under forbid, once; nothing else is
Rest == {d \in All : d[2] \notin Range(AllBound)}
Reports == Done => IF Rest = {} THEN out.x = "" /\ out.v = rel.v
                   ELSE /\ out.x = "V"
                        /\ SameBag(Map(LAMBDA e : e.loc, out.errs), Map(LAMBDA d : d[1], SetToSeq(Rest)))
                        /\ \A e \in Range(out.errs) : e.type = "extra_forbidden"
\* C07: the items of a collection in document order (unless an unordered search exchanged elements)
NumOf(t) == CHOOSE n \in 1 .. 9 : t = "t" \o ToString(n)
InOrder == Done /\ (cfg.mode < 3 \/ Len(cfg.ks) = 1) =>
  \A i \in DOMAIN cfg.ks : \A j \in 1 .. Len(Bound(i)) - 1 : NumOf(Bound(i)[j]) < NumOf(Bound(i)[j + 1])
\* C03: a class of one field finds what stands where the search has to look
FirstTags(e, t) == \A i \in DOMAIN e.kids : e.kids[i].tag # t
RECURSIVE FirstAt(_, _)
FirstAt(e, p) ==         \* what is at the path, going down the first element of each name
  IF p = <<>> THEN (IF e.text = "" THEN {} ELSE {e.text})
  ELSE IF p[1] = "@n" THEN {a[2] : a \in {x \in Range(e.attrs) : x[1] = "n"}}
  ELSE LET S == {i \in DOMAIN e.kids : e.kids[i].tag = p[1]} IN IF S = {} THEN {} ELSE FirstAt(e.kids[MinOf(S)], Tail(p))
RECURSIVE StrictAt(_, _)
StrictAt(e, p) ==        \* going down the very first elements only
  IF p = <<>> THEN (IF e.text = "" THEN {} ELSE {e.text})
  ELSE IF p[1] = "@n" THEN {a[2] : a \in {x \in Range(e.attrs) : x[1] = "n"}}
  ELSE IF e.kids = <<>> \/ e.kids[1].tag # p[1] THEN {} ELSE StrictAt(e.kids[1], Tail(p))
Single == Done /\ Len(cfg.ks) = 1 /\ Menu[cfg.ks[1]].t = StrT =>
  Range(Bound(1)) = IF cfg.mode = 1 THEN StrictAt(DocF(f), Menu[cfg.ks[1]].p) ELSE FirstAt(DocF(f), Menu[cfg.ks[1]].p)
\* C06: what the first field gets does not depend on the fields after it
Earlier == Done /\ Len(cfg.ks) = 2 =>
  Bound(1) = Scal(Parse(RegOf(Defs([cfg EXCEPT !.ks = <<cfg.ks[1]>>], "ignore")), "M", DocF(f), O0).v)
=============================================================================
