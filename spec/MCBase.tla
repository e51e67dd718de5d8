------------------------------- MODULE MCBase -------------------------------
(* What the exhaustively checked models share: building class definitions    *)
(* and documents, choosing the cases that are put to the real code.          *)
EXTENDS Lib, Json, IOUtils

ASSUME TLCSet(2, ndJsonDeserialize(IOEnv.TABLE_FILE)[1])
Seed == atoi(IOEnv.MC_SEED)
Stride == atoi(IOEnv.MC_STRIDE)         \* every Stride-th case is put to the real code
Deep == IOEnv.MC_DEEP = "1"

-----------------------------------------------------------------------------
(* Class definitions, as Trace reads them *)
Cls0(name) ==
  [name |-> name, kind |-> "model", bases |-> <<>>, args |-> <<>>, params |-> <<>>, tag |-> <<>>, ns |-> <<>>, nsmap |-> <<>>,
   nsattrs |-> <<>>, skip |-> <<>>, mode |-> <<>>, extra |-> <<>>, hide |-> <<>>, raws |-> FALSE, route |-> "class", fwd |-> FALSE,
   hn |-> name, fields |-> <<>>, comps |-> <<>>, vhooks |-> <<>>, shooks |-> <<>>, mvs |-> <<>>, idv |-> <<>>, idf |-> <<>>, uerr |-> <<>>]
Fld0(name, typ) ==
  [name |-> name, ent |-> <<>>, salias |-> <<>>, valias |-> <<>>, typ |-> typ, dflt |-> <<>>, excl |-> FALSE, noxml |-> FALSE,
   avh |-> <<>>, ash |-> <<>>]
Ent0(loc, path) == [loc |-> loc, path |-> path, ns |-> <<>>, nsmap |-> <<>>, nil |-> <<>>, inner |-> <<>>]
Elem(tag) == Ent0("element", <<tag>>)
Attr(name) == Ent0("attr", <<name>>)
WrapIn(path, inner) == [Ent0("wrapped", <<path>>) EXCEPT !.inner = <<inner>>]
Prim(ty) == [k |-> "prim", ty |-> ty]
StrT == Prim("str")
IntT == Prim("int")
OptT(t) == [k |-> "opt", of |-> t]
ListT(t) == [k |-> "list", of |-> t]
ModelT(c) == [k |-> "model", c |-> c]
UnionT(ts) == [k |-> "union", of |-> ts, ty |-> ""]
WithNone(f) == [f EXCEPT !.dflt = <<NoneV>>]

Node(tag, text, kids) == [tag |-> tag, text |-> text, tail |-> "", attrs |-> <<>>, kids |-> kids, line |-> 1]

-----------------------------------------------------------------------------
(* Registry of a sequence of definitions (all of them are accepted) *)
RegOf(ds) == Fold(LAMBDA R, d : DoDefine(R, d).R, Reg0, ds)
AllOk(ds) == LET R == RegOf(ds) IN \A i \in DOMAIN ds : ds[i].name \in DOMAIN R /\ R[ds[i].name].status = "ok"
O0 == [ctx |-> <<>>, eas |-> FALSE]
Fl0 == [se |-> FALSE, en |-> FALSE, eu |-> FALSE]

-----------------------------------------------------------------------------
(* Export *)
ParseEv(o, c, doc) == [e |-> "parse", o |-> o, c |-> c, doc |-> doc, ctx |-> <<>>, eas |-> FALSE, src |-> "str", bytes |-> FALSE]
NewEv(o, c, kw) == [e |-> "new", o |-> o, c |-> c, kw |-> kw]
SerEv(o, fl) == [e |-> "ser", o |-> o, fl |-> fl, tree |-> FALSE]
RtEv(o, o2, fl) == [e |-> "rt", o |-> o, o2 |-> o2, fl |-> fl, eas |-> FALSE, ctx |-> <<>>]
Export(ds, evs) == PrintT("CASE " \o ToJson([ds |-> ds, evs |-> evs]))
\* is this the turn of case number n?
Turn(n) == (n + Seed * 7) % Stride = 0
Tag2Num(t) == CASE t = "a" -> 1 [] t = "b" -> 2 [] t = "c" -> 3 [] t = "w" -> 4 [] t = "v" -> 5 [] t = "x" -> 6 [] OTHER -> 7
Seqs(S, lo, hi) == UNION {[1 .. n -> S] : n \in lo .. hi}
=============================================================================
