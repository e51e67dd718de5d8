-------------------------------- MODULE Trace -------------------------------
(* Does the implementation behave as Lib says?  Every program is one          *)
(* behaviour: a sequence of operations with what the real code was seen to    *)
(* do on each XML backend (obs).  The specification computes what has to be   *)
(* seen; differences are printed and the next operation is judged.            *)
EXTENDS Lib, Json, IOUtils
\* the files are read once
ASSUME TLCSet(1, ndJsonDeserialize(IOEnv.TRACE_FILE))
ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TABLE_FILE)[1])
Progs == TLCGet(1)

VARIABLES p, i, R, objs, bad
vars == <<p, i, R, objs, bad>>
View == <<p, i>>

Ev == Progs[p].evs[i]
Backends(ev) == {b \in {"lxml", "std", "both"} : b \in DOMAIN ev.obs}
NoLine(errs) == Map(LAMBDA e : [e EXCEPT !.line = 0 - 1], errs)
ErrsFor(b, errs) == IF b = "std" THEN NoLine(errs) ELSE errs
ObsErrs(o) == Map(LAMBDA e : [loc |-> e.loc, type |-> e.type, line |-> e.line, msg |-> e.msg], o.errs)

If(c, s) == IF c THEN {s} ELSE {}

\* verdict of one observation against the expected outcome [x, v, errs, title]
Judge(b, o, exp, hide) ==
  IF o.x # exp.x THEN {"outcome"}
  ELSE CASE exp.x = "" -> If(~SameVal(V(o.val), exp.v), "value")
         [] exp.x = "V" -> If(~SameBag(ObsErrs(o), ErrsFor(b, exp.errs)),
                              IF SameBag(NoLine(ObsErrs(o)), NoLine(exp.errs)) THEN "lines" ELSE "errors")
                           \cup If(exp.title # "" /\ o.title # exp.title, "title")
                           \cup If(o.shows = hide, "hidden-input")
                           \cup If(~o.wellmsg, "message")
         [] OTHER -> {}

Flags(ev) == [se |-> ev.fl.se, en |-> ev.fl.en, eu |-> ev.fl.eu]

\* [R, objs, bad] after the event
Define1 ==
  LET r == DoDefine(R, Ev.d)
      W(b) == LET o == Ev.obs[b] IN
              If((o.x = "") # (r.x = "") \/ (r.x = "ModelFieldError" /\ o.x # r.x), "define-outcome") \cup If(o.x = r.x /\ r.x = "ModelFieldError" /\ (o.model # r.model \/ o.field # r.field), "names")
  IN [R |-> r.R, objs |-> objs, bad |-> UNION {W(b) : b \in Backends(Ev)}, exp |-> [x |-> r.x, model |-> r.model, field |-> r.field]]
Rebuild1 ==
  LET r == DoRebuild(R, Ev.c)
  IN [R |-> r.R, objs |-> objs, bad |-> UNION {If(Ev.obs[b].x # r.x, "rebuild-outcome") : b \in Backends(Ev)}, exp |-> [x |-> r.x]]
New1 ==
  LET kw == Map(LAMBDA e : <<e[1], V(e[2])>>, Ev.kw)
      r == DoNew(R, Ev.c, kw)
      W(b) == LET o == Ev.obs[b] IN If(o.x # r.x, "new-outcome") \cup If(o.x = "" /\ r.x = "" /\ ~SameVal(V(o.val), r.v), "new-value")
  IN [R |-> r.R, objs |-> IF r.x = "" THEN APut(objs, Ev.o, r.v) ELSE objs,
      bad |-> UNION {W(b) : b \in Backends(Ev)}, exp |-> [x |-> r.x, v |-> r.v, errs |-> r.errs]]
Parse1 ==
  LET r == Parse(R, Ev.c, Ev.doc, [ctx |-> Ev.ctx, eas |-> Ev.eas])
      exp == [x |-> r.x, v |-> r.v, errs |-> r.errs, title |-> r.title]
      W(b) == Judge(b, Ev.obs[b], exp, R[Ev.c].hide) \cup If(~Ev.obs[b].pure, "input-modified")
  IN [R |-> R, objs |-> IF r.x = "" THEN APut(objs, Ev.o, r.v) ELSE objs, bad |-> UNION {W(b) : b \in Backends(Ev)}, exp |-> exp]
Ser1 ==
  LET have == The(AGet(objs, Ev.o))
      v == IF SameVal(V(Ev.val), have) THEN V(Ev.val) ELSE have     \* the order of a set is the one observed
      r == WriteDoc(R, v, Flags(Ev))
      exp == Plain([r.w EXCEPT !.tail = ""])
      W(b) == LET o == Ev.obs[b] IN
              If(~SameVal(V(Ev.val), have), "instance")
              \cup If(o.x # r.x, "outcome")
              \cup If(o.x = "" /\ r.x = "" /\ Plain(o.tree) # exp, "document")
              \cup If(~o.pure, "instance-modified")
  IN [R |-> R, objs |-> objs, bad |-> UNION {W(b) : b \in Backends(Ev)}, exp |-> [x |-> r.x, tree |-> exp]]
Look1 ==
  LET have == The(AGet(objs, Ev.o))
  IN [R |-> R, objs |-> objs, bad |-> UNION {If(~SameVal(V(Ev.obs[b].val), have), "instance-changed") : b \in Backends(Ev)},
      exp |-> [v |-> have]]
Set1 ==
  LET have == The(AGet(objs, Ev.o))
  IN [R |-> R, objs |-> APut(objs, Ev.o, DoAssign(have, Ev.f, V(Ev.v))), bad |-> {}, exp |-> [x |-> ""]]
\* a poke rebinds the name: what the instance holds now is what was done to it from outside
Poke1 ==
  LET b == CHOOSE x \in Backends(Ev) : TRUE
  IN [R |-> R, objs |-> APut(objs, Ev.o, V(Ev.obs[b].val)), bad |-> {}, exp |-> [x |-> ""]]
\* write, then read what was written
Rt1 ==
  LET have == The(AGet(objs, Ev.o))
      v == IF SameVal(V(Ev.val), have) THEN V(Ev.val) ELSE have
      w == WriteDoc(R, v, Flags(Ev))
      doc == DocOf([w.w EXCEPT !.tail = ""])
      r == IF w.x # "" THEN [Ret(doc, <<>>, NoneV) EXCEPT !.x = w.x] ELSE Parse(R, v.c, doc, [ctx |-> Ev.ctx, eas |-> Ev.eas])
      exp == [x |-> r.x, v |-> r.v, errs |-> NoLine(r.errs), title |-> r.title]
      \* sources of the second parse are not compared: where the writer breaks lines is not specified
      W(b) == LET o == IF "errs" \in DOMAIN Ev.obs[b] THEN [Ev.obs[b] EXCEPT !.errs = NoLine(@)] ELSE Ev.obs[b]
              IN Judge("std", o, exp, R[v.c].hide)
  IN [R |-> R, objs |-> IF r.x = "" THEN APut(objs, Ev.o2, r.v) ELSE objs,
      bad |-> UNION {W(b) : b \in Backends(Ev)} , exp |-> exp]
Skip1 == [R |-> R, objs |-> objs, bad |-> {}, exp |-> [x |-> ""]]

\* names whose definition has been attempted before (successfully or not)
Tried == {Progs[p].evs[j].d.name : j \in {k \in 1 .. i - 1 : Progs[p].evs[k].e = "define"}}
\* operations on things that do not exist (their making failed) say nothing
Dead(ev) == CASE ev.e = "define" ->
                     \/ \E b \in DOMAIN ev.d.bases : ev.d.bases[b] \notin DOMAIN R
                     \/ \E n \in UNION {Refs(ev.d.fields[f].typ) : f \in DOMAIN ev.d.fields}
                                 \cup UNION {Refs(ev.d.args[f][2]) : f \in DOMAIN ev.d.args} :
                          n \notin DOMAIN R /\ (~ev.d.fwd \/ n \in Tried)
              [] ev.e = "rebuild" -> ev.c \notin DOMAIN R
              [] ev.e = "new" -> \/ ev.c \notin DOMAIN R
                                 \/ \E a \in DOMAIN ev.kw : \E n \in Range(Insts(V(ev.kw[a][2]))) : n \notin DOMAIN R
              [] ev.e = "parse" -> ev.c \notin DOMAIN R
              [] ev.e \in {"ser", "look", "set", "poke", "rt"} -> ~AHas(objs, ev.o)
              [] OTHER -> FALSE
Outcome == IF Dead(Ev) \/ DOMAIN Ev.obs = {} THEN Skip1
           ELSE CASE Ev.e = "define" -> Define1 [] Ev.e = "rebuild" -> Rebuild1 [] Ev.e = "new" -> New1
                  [] Ev.e = "parse" -> Parse1 [] Ev.e = "ser" -> Ser1 [] Ev.e = "look" -> Look1
                  [] Ev.e = "set" -> Set1 [] Ev.e = "poke" -> Poke1 [] Ev.e = "rt" -> Rt1

TraceInit == /\ p \in 1 .. Len(Progs) /\ i = 1 /\ R = Reg0 /\ objs = <<>> /\ bad = {}
TraceNext ==
  /\ i <= Len(Progs[p].evs)
  /\ LET q == Outcome
     IN /\ R' = q.R /\ objs' = q.objs /\ bad' = q.bad
        /\ IF q.bad = {} THEN TRUE
           ELSE PrintT("BAD " \o ToJson([id |-> Progs[p].id, ev |-> i, what |-> q.bad, exp |-> q.exp]))
  /\ i' = i + 1 /\ p' = p
Done == i > Len(Progs[p].evs) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
