--------------------------------- MODULE Lib --------------------------------
(* The library as a state machine.                                           *)
(*   R    registry of the classes defined so far                             *)
(*   objs the instances the program holds, by name                           *)
(* Every operation is a pure function of its arguments and R; only Define,   *)
(* Rebuild and Parametrise extend R, only New/Parse/Assign bind a name.      *)
EXTENDS Codec

\* values as they come from JSON (sequences) to values of the specification (sets where order is void)
RECURSIVE V(_)
V(j) == CASE j.k = "l" -> [j EXCEPT !.xs = Map(V, j.xs)]
          [] j.k = "d" -> [j EXCEPT !.kv = Map(LAMBDA e : <<V(e[1]), V(e[2])>>, j.kv)]
          [] j.k = "m" -> [j EXCEPT !.f = Map(LAMBDA e : <<e[1], V(e[2])>>, j.f), !.s = Range(j.s)]
          [] j.k = "raw" -> [j EXCEPT !.t = Plain(j.t)]
          [] OTHER -> j

RECURSIVE SameVal(_, _)
SameVal(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "l" -> /\ a.t = b.t /\ Len(a.xs) = Len(b.xs)
                       /\ IF a.t \in {"set", "frozenset"} THEN SameBag(a.xs, b.xs)
                          ELSE \A i \in DOMAIN a.xs : SameVal(a.xs[i], b.xs[i])
       [] a.k = "d" -> /\ Len(a.kv) = Len(b.kv)
                       /\ \A i \in DOMAIN a.kv : \E j \in DOMAIN b.kv : SameVal(a.kv[i][1], b.kv[j][1]) /\ SameVal(a.kv[i][2], b.kv[j][2])
       [] a.k = "m" -> /\ a.c = b.c /\ a.s = b.s /\ Len(a.f) = Len(b.f)
                       /\ \A i \in DOMAIN a.f : a.f[i][1] = b.f[i][1] /\ SameVal(a.f[i][2], b.f[i][2])
       [] OTHER -> a = b

Reg0 == [x \in {} |-> 0]

\* [R, x] : x = "" fine, else the kind of the failure
DoDefine(R, d) ==
  LET R1 == Define(R, d)
      e == R1[d.name]
  IN IF e.status = "fail" THEN [R |-> R, x |-> The(e.err).e, model |-> The(e.err).model, field |-> The(e.err).field]
     ELSE [R |-> R1, x |-> "", model |-> "", field |-> ""]
DoRebuild(R, c) ==
  IF R[c].status # "partial" \/ R[c].unbound THEN [R |-> R, x |-> "", model |-> "", field |-> ""]
  ELSE IF ~Resolved(R, c) THEN [R |-> R, x |-> "PydanticUndefinedAnnotation", model |-> "", field |-> ""]
  ELSE LET b == Build(R, c)
       IN IF b.status = "fail"
          \* the class validates from now on although it cannot read or write documents
          THEN [R |-> [R EXCEPT ![c].valok = TRUE], x |-> The(b.err).e, model |-> The(b.err).model, field |-> The(b.err).field]
          ELSE [R |-> (c :> b) @@ R, x |-> "", model |-> "", field |-> ""]
\* classes of the instances a value is made of, innermost first
RECURSIVE Insts(_)
Insts(v) == CASE v.k = "l" -> Flat(Map(Insts, v.xs))
              [] v.k = "d" -> Flat(Map(LAMBDA e : Insts(e[1]) \o Insts(e[2]), v.kv))
              [] v.k = "m" -> Flat(Map(LAMBDA e : IF e[1] \in v.s THEN Insts(e[2]) ELSE <<>>, v.f)) \o <<v.c>>
              [] OTHER -> <<>>
\* the validation library completes a class by itself, if it can, when an instance is built
RECURSIVE Complete(_, _)
Complete(R, cs) ==
  IF cs = <<>> THEN [R |-> R, x |-> ""]
  ELSE LET r == IF R[Head(cs)].valok THEN [R |-> R, x |-> ""] ELSE DoRebuild(R, Head(cs)) IN IF r.x # "" THEN [R |-> r.R, x |-> r.x] ELSE Complete(r.R, Tail(cs))
DoNew(R, c, kw) ==
  LET r == Complete(R, Flat(Map(LAMBDA e : Insts(e[2]), kw)) \o <<c>>)
      m == IF R[c].kind = "root"
           THEN MakeRoot(R, c, IF kw = <<>> THEN UndefW ELSE kw[1][2], R[c].uerr, LAMBDA f, w : Good(w))
           ELSE MakeWith(R, c, kw, LAMBDA f, w : Good(w))
  IN [R |-> r.R, x |-> IF r.x # "" THEN "E" ELSE IF m.ok THEN "" ELSE "V", v |-> m.v, errs |-> m.errs]
DoAssign(v, f, x) ==
  [v EXCEPT !.f = Map(LAMBDA e : IF e[1] = f THEN <<f, x>> ELSE e, v.f), !.s = v.s \cup {f}]
=============================================================================
