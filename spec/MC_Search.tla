------------------------------ MODULE MC_Search -----------------------------
(* Small scope: one model class, up to three fields bound to elements named   *)
(* a or b, each required, optional or a list; a document whose root has up to *)
(* four sub-elements named a, b or x; the three search modes; extra ignored   *)
(* or forbidden.  All combinations.                                           *)
(*                                                                            *)
(* The laws say which sub-elements a field gets without saying how they are   *)
(* looked for: positions, not steps.                                          *)
EXTENDS MCBase

Shapes == {"req", "opt", "list"}
MaxF == 3
MaxD == IF Deep THEN 4 ELSE 3
Modes == <<"strict", "ordered", "unordered">>
Configs == {[fs |-> fs, mode |-> m, extra |-> x] :
              fs \in Seqs({"a", "b"} \X Shapes, 1, MaxF), m \in {1, 2, 3}, x \in {"ignore", "forbid"}}
Field(i, f) ==
  LET n == "f" \o ToString(i)
      t == CASE f[2] = "req" -> StrT [] f[2] = "opt" -> OptT(StrT) [] f[2] = "list" -> OptT(ListT(StrT))
      b == [Fld0(n, t) EXCEPT !.ent = <<Elem(f[1])>>]
  IN IF f[2] = "req" THEN b ELSE WithNone(b)
ClassOf(c) == [Cls0("M") EXCEPT !.mode = <<Modes[c.mode]>>, !.extra = <<c.extra>>, !.fields = [i \in DOMAIN c.fs |-> Field(i, c.fs[i])]]
Relaxed(c) == [c EXCEPT !.extra = "ignore", !.fs = [i \in DOMAIN c.fs |-> <<c.fs[i][1], IF c.fs[i][2] = "req" THEN "opt" ELSE c.fs[i][2]>>]]
DocOfTags(ts) == Node("M", "", [i \in DOMAIN ts |-> Node(ts[i], "t" \o ToString(i), <<>>)])

VARIABLES cfg, ts, out, rel
vars == <<cfg, ts, out, rel>>
Run(c, doc) == Parse(RegOf(<<ClassOf(c)>>), "M", doc, O0)

Num(c) == Fold(LAMBDA acc, f : acc * 6 + Tag2Num(f[1]) * 3 + (CASE f[2] = "req" -> 0 [] f[2] = "opt" -> 1 [] OTHER -> 2), c.mode, c.fs)
DNum(t) == Fold(LAMBDA acc, x : acc * 5 + Tag2Num(x), 0, t)

Init0 == cfg \in Configs /\ ts = <<"-">> /\ out = <<>> /\ rel = <<>>
Next == /\ ts = <<"-">>
        /\ ts' \in Seqs({"a", "b", "x"}, 0, MaxD)
        /\ out' = Run(cfg, DocOfTags(ts'))
        /\ rel' = Run(Relaxed(cfg), DocOfTags(ts'))
        /\ cfg' = cfg
        /\ IF Turn(Num(cfg) * 13 + DNum(ts') * 11) THEN Export(<<ClassOf(cfg)>>, <<ParseEv("o", "M", DocOfTags(ts'))>>) ELSE TRUE
Spec == Init0 /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == ts # <<"-">>
PosOf(v) == CHOOSE i \in DOMAIN ts : v = PrimV("str:t" \o ToString(i))
Got(r, i) == LET v == r.v.f[i][2] IN IF v.k = "none" THEN <<>> ELSE IF v.k = "l" THEN Map(PosOf, v.xs) ELSE <<PosOf(v)>>
B(i) == Got(rel, i)
F == cfg.fs
AllPos == Flat([i \in DOMAIN F |-> B(i)])
Increasing(s) == \A i \in 1 .. Len(s) - 1 : s[i] < s[i + 1]
Last(s, i) == IF s = <<>> THEN 0 ELSE s[Len(s)]
\* the last position taken by the fields before i
Before(i) == LET p == Flat([j \in 1 .. i - 1 |-> B(j)]) IN IF p = <<>> THEN 0 ELSE p[Len(p)]
After(i, n) == {p \in DOMAIN ts : p > n /\ ts[p] = F[i][1]}
Free(i) == {p \in DOMAIN ts : ts[p] = F[i][1] /\ \A j \in 1 .. i - 1 : p \notin Range(B(j))}

\* C06: what a field gets has its name, nothing is given twice; what may be missing is never an error
OnceEach == Done => /\ rel.x = ""
                    /\ Len(AllPos) = Cardinality(Range(AllPos))
                    /\ \A i \in DOMAIN F : \A p \in Range(B(i)) : ts[p] = F[i][1]
\* C07: the items of a collection are in document order (an unordered search may have exchanged elements before)
InOrder == Done /\ cfg.mode < 3 => \A i \in DOMAIN F : Increasing(B(i))
\* C03: document order, no gap: the elements taken are the first ones; a field without any faces another name
StrictLaw == Done /\ cfg.mode = 1 =>
  /\ AllPos = [j \in 1 .. Len(AllPos) |-> j]
  /\ \A i \in DOMAIN F : LET n == Before(i) + Len(B(i)) + 1
                         IN (F[i][2] = "list" \/ B(i) = <<>>) /\ n <= Len(ts) => ts[n] # F[i][1]
\* C03: document order, unknown elements passed over
OrderedLaw == Done /\ cfg.mode = 2 =>
  /\ Increasing(AllPos)
  /\ \A i \in DOMAIN F : LET S == After(i, Before(i))
                         IN IF S = {} THEN B(i) = <<>> ELSE IF F[i][2] = "list" THEN Range(B(i)) = S ELSE B(i) = <<MinOf(S)>>
\* C03: any order; which of several equally named elements an optional field gets depends on what was exchanged
UnorderedLaw == Done /\ cfg.mode = 3 =>
  \A i \in DOMAIN F : LET S == Free(i)
                      IN IF S = {} THEN B(i) = <<>> ELSE IF F[i][2] = "list" THEN Range(B(i)) = S ELSE B(i) # <<>> /\ B(i)[1] \in S
\* nothing is exchanged when the fields come in the order of the document
InPlace == Done /\ cfg.mode = 3 /\ Increasing(AllPos) =>
  \A i \in DOMAIN F : B(i) # <<>> => B(i)[1] = MinOf(Free(i))
\* C04, C05: an element that no field got is reported under forbid and ignored otherwise; a required field that got nothing fails
Unknown == {p \in DOMAIN ts : p \notin Range(AllPos)}
Missing == {i \in DOMAIN F : F[i][2] = "req" /\ B(i) = <<>>}
Reports == Done =>
  IF cfg.extra = "forbid" /\ Unknown # {}
  THEN /\ out.x = "V" /\ \A e \in Range(out.errs) : e.type = "extra_forbidden"
       /\ SameBag(Map(LAMBDA e : e.loc, out.errs), Map(LAMBDA p : <<ts[p]>>, SetToSeq(Unknown)))
  ELSE IF Missing # {}
  THEN /\ out.x = "V" /\ {<<e.type, e.loc>> : e \in Range(out.errs)} = {<<"missing", <<"f" \o ToString(i)>>>> : i \in Missing}
       /\ Len(out.errs) = Cardinality(Missing)
  ELSE out.x = "" /\ out.v.f = rel.v.f
\* C03: what a stricter mode accepts without leaving anything out, a looser one understands the same way
Looser == Done /\ cfg.mode < 3 /\ Unknown = {} /\ (\A i, j \in DOMAIN F : i # j => F[i][1] # F[j][1]) =>
  Run([Relaxed(cfg) EXCEPT !.mode = cfg.mode + 1], DocOfTags(ts)).v = rel.v
=============================================================================
