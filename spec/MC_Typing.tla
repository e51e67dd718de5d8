----------------------------- MODULE MC_Typing ------------------------------
(* Small scope: a class with one field given in every way (attr, element,    *)
(* wrapped, Field; wrapped around each of these, twice even; default, factory,*)
(* aliases, frozen and strict marks at every level), and a class and one      *)
(* derived from it with every combination of settings and with fields added   *)
(* or replaced. Every constructor call naming up to two of the names at hand, *)
(* and an assignment to each field.                                           *)
EXTENDS Typing, TLC, Json, IOUtils

Seed == atoi(IOEnv.MC_SEED)
Stride == atoi(IOEnv.MC_STRIDE)
Deep == IOEnv.MC_DEEP = "1"

Dflts == {"no", "val", "dots", "fac", "nofac"}
Tri == {"no", "true", "false"}
Call0(fn) == [fn |-> fn, inner |-> <<>>, dflt |-> "no", alias |-> "", valias |-> "", salias |-> "", frozen |-> "no", strict |-> "no"]
Rhs(call) == [r |-> "call", call |-> call]
None == [r |-> "none", call |-> Call0("attr")]
Plain == [r |-> "plain", call |-> Call0("attr")]
Calls1(fns, sal) == {c \in [fn : fns, inner : {<<>>}, dflt : Dflts, alias : {"", "z"}, valias : {"", "v"}, salias : sal, frozen : Tri, strict : Tri] :
                      \* Field has no second way of being given nothing
                      c.fn = "Field" => c.salias = ""}
Flat == {None, Plain} \cup {Rhs(c) : c \in Calls1({"attr", "element", "wrapped", "Field"}, {"", "s"})}
\* around an inner entity: how many things are said, all in all
B2(b) == IF b THEN 1 ELSE 0
Said(c) == B2(c.dflt # "no") + B2(c.alias # "") + B2(c.valias # "") + B2(c.frozen # "no") + B2(c.strict # "no")
Inner == {c \in Calls1({"attr", "element", "Field", "wrapped"}, {""}) : Said(c) <= 2}
Outer == {c \in Calls1({"wrapped"}, {""}) : Said(c) <= (IF Deep THEN 3 ELSE 2)}
Nested1 == {[o EXCEPT !.inner = <<i>>] : i \in Inner, o \in Outer}
Around(i) == [Call0("wrapped") EXCEPT !.inner = <<i>>]
Mid == {c \in Calls1({"wrapped"}, {""}) : Said(c) <= 1}
Nested2 == {[o EXCEPT !.inner = <<[m EXCEPT !.inner = <<i>>]>>] : i \in {x \in Inner : Said(x) <= 1 /\ x.fn # "element"}, m \in Mid, o \in Mid}

Class0(name) == [name |-> name, bases |-> <<>>, fields |-> <<>>, extra |-> "no", frozen |-> "no", byname |-> "no", strict |-> "no"]
Fld(name, rhs) == [name |-> name, rhs |-> rhs]
Single(rhs) == [Class0("M") EXCEPT !.fields = <<Fld("f", rhs)>>]
\* settings
Some == {None, Plain, Rhs(Call0("attr")), Rhs([Call0("element") EXCEPT !.alias = "z", !.dflt = "val"]), Rhs([Call0("attr") EXCEPT !.alias = "z"]),
         Rhs([Call0("element") EXCEPT !.strict = "false"]), Rhs([Call0("attr") EXCEPT !.frozen = "true", !.dflt = "fac"]),
         Rhs(Around([Call0("element") EXCEPT !.valias = "v"])), Rhs(Around([Call0("attr") EXCEPT !.strict = "true", !.dflt = "val"]))}
Sets(c) == {[c EXCEPT !.extra = x, !.frozen = f, !.byname = b, !.strict = s] : x \in {"no", "ignore", "forbid"}, f \in Tri, b \in Tri, s \in Tri}
Few(c) == {d \in Sets(c) : B2(d.extra # "no") + B2(d.frozen # "no") + B2(d.byname # "no") + B2(d.strict # "no") <= (IF Deep THEN 4 ELSE 2)}
Alone == UNION {Sets(Single(r)) : r \in Some}
Derived == {[d EXCEPT !.bases = <<b>>] : b \in UNION {Few([Single(r) EXCEPT !.name = "B"]) : r \in Some},
                                         d \in UNION {Few([Class0("M") EXCEPT !.fields = fs]) :
                                                       fs \in {<<>>, <<Fld("g", Rhs(Call0("attr")))>>, <<Fld("f", Rhs([Call0("element") EXCEPT !.dflt = "val"]))>>,
                                                               <<Fld("g", Plain), Fld("f", None)>>}}}

-----------------------------------------------------------------------------
VARIABLES grp, cls
vars == <<grp, cls>>
GOf(g) == CASE g = "flat" -> {Single(r) : r \in Flat} [] g = "one" -> {Single(Rhs(c)) : c \in Nested1} [] g = "two" -> {Single(Rhs(c)) : c \in Nested2}
            [] g = "alone" -> Alone [] OTHER -> Derived
Start == Class0("none")
DNum(d) == CASE d = "no" -> 0 [] d = "val" -> 1 [] d = "dots" -> 2 [] d = "fac" -> 3 [] OTHER -> 4
TNum(t) == CASE t = "no" -> 0 [] t = "true" -> 1 [] OTHER -> 2
FNum(f) == CASE f = "attr" -> 0 [] f = "element" -> 1 [] f = "wrapped" -> 2 [] OTHER -> 3
RECURSIVE CNum(_)
CNum(c) == ((((((DNum(c.dflt) * 2 + B2(c.alias = "")) * 2 + B2(c.valias = "")) * 2 + B2(c.salias = "")) * 3 + TNum(c.frozen)) * 3 + TNum(c.strict)) * 4 + FNum(c.fn))
           + (IF c.inner = <<>> THEN 0 ELSE 7 * CNum(c.inner[1]))
RNum(r) == IF r.r = "call" THEN CNum(r.call) ELSE IF r.r = "plain" THEN 1 ELSE 2
RECURSIVE Sum(_)
Sum(fs) == IF fs = <<>> THEN 0 ELSE RNum(fs[1].rhs) + 3 * B2(fs[1].name = "f") + 5 * Sum(Tail(fs))
RECURSIVE KNum(_)
KNum(c) == Sum(c.fields) + 13 * (((TNum(c.frozen) * 3 + TNum(c.byname)) * 3 + TNum(c.strict)) * 3 + (CASE c.extra = "no" -> 0 [] c.extra = "ignore" -> 1 [] OTHER -> 2))
           + (IF c.bases = <<>> THEN 0 ELSE 17 * KNum(c.bases[1]))
Turn(g, n) == (n + Seed * 7) % (CASE g = "flat" -> 1 + Stride \div 30 [] g = "alone" -> 1 + Stride \div 15 [] OTHER -> Stride) = 0

\* the validation library does not take back what a base says about names, and its own plugin does not see that an inherited field is frozen:
\* neither is asked for
Sounds(c) == /\ \A i \in DOMAIN c.fields : Sound(c.fields[i].rhs)
             /\ c.bases # <<>> => c.byname \in {"no", c.bases[1].byname} \/ c.bases[1].byname = "no"
ByName(c) == Setting(c, "byname") = "true"
\* every name might be tried; a name that is not asked for but understood all the same (an alias beside the name) is not
NamesOf(c) == IF ByName(c) THEN <<"f", "g", "q">> ELSE IF c.bases = <<>> THEN <<"f", "z", "v", "q">> ELSE <<"f", "g", "z", "v", "q">>
Argss(c) == LET ns == NamesOf(c) IN
  {<<>>} \cup {<<<<ns[i], k>>>> : i \in DOMAIN ns, k \in {"number", "text"}}
         \cup {<<<<ns[i], "number">>, <<ns[j], "number">>>> : i \in DOMAIN ns, j \in {j \in DOMAIN ns : TRUE}}
\* no name twice
Tried(c) == {a \in Argss(c) : Len(a) = 2 => a[1][1] # a[2][1]}
FNames(c) == LET fs == AllFields(c)  own == {c.fields[i].name : i \in DOMAIN c.fields} IN
  {fs[i].name : i \in {i \in DOMAIN fs : fs[i].name \in own \/ ~Frozen(fs[i].rhs)}}
Export(c) ==
  PrintT("CASE " \o ToJson([cls |-> c, calls |-> {[args |-> a, ok |-> Accepts(c, a), full |-> AcceptsWith(c, a, [typed |-> TRUE, forbid |-> TRUE])] : a \in Tried(c)}, sets |-> {[f |-> f, ok |-> Assigns(c, f), full |-> Assigns(c, f)] : f \in FNames(c)}]))

Init == grp \in {"flat", "one", "two", "alone", "derived"} /\ cls = Start
Next == /\ cls = Start /\ grp' = grp
        /\ cls' \in {c \in GOf(grp) : Sounds(c)}
        /\ IF Turn(grp, KNum(cls')) THEN Export(cls') ELSE TRUE
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == cls # Start
Mine == cls.fields[1].rhs
OneField == Done /\ grp \in {"flat", "one", "two"}
With(rhs) == [cls EXCEPT !.fields[1].rhs = rhs]
\* C26: a wrapper that says nothing changes nothing
Transparent == OneField /\ Mine.r = "call" => LET w == With(Rhs(Around(Mine.call))) IN Params(w) = Params(cls) /\ (Assigns(w, "f") = Assigns(cls, "f"))
\* the kind of entity makes no difference
Alike == OneField /\ Mine.r = "call" => \A fn \in {"attr", "element"} : Params(With(Rhs([Mine.call EXCEPT !.fn = fn]))) = Params(cls)
\* a default never makes a call invalid; without one nothing can be left out
Lenient == OneField /\ Mine.r = "call" /\ ~HasDefault(Mine) =>
  LET d == With(Rhs([Mine.call EXCEPT !.dflt = "val"])) IN
  \A a \in Tried(cls) : (Accepts(cls, a) => Accepts(d, a)) /\ (Accepts(d, a) /\ ~Accepts(cls, a) => Params(cls)[1].key \notin Names(a))
\* an alias is another name of the field, and its own name none
Renamed == OneField /\ AliasOf(Mine) # "" =>
  LET other == [cls EXCEPT !.fields = <<Fld(AliasOf(Mine), IF Mine.r = "call" /\ HasDefault(Mine) THEN Rhs([Call0("attr") EXCEPT !.dflt = "val", !.strict = IF Strict(Mine, FALSE) THEN "true" ELSE "no"])
                                                           ELSE Rhs([Call0("attr") EXCEPT !.strict = IF Strict(Mine, FALSE) THEN "true" ELSE "no"]))>>]
  IN \A a \in Tried(cls) : Accepts(cls, a) = Accepts(other, a)
\* deriving without saying anything is the same class
Same == Done /\ grp # "derived" => LET d == [Class0("D") EXCEPT !.bases = <<cls>>] IN Params(d) = Params(cls) /\ \A f \in FNames(cls) : Assigns(d, f) = Assigns(cls, f)
\* settings of the derived class win; what it says nothing about is as in the base
Settings == Done /\ grp = "derived" =>
  LET flat == [cls EXCEPT !.bases = <<>>, !.fields = AllFields(cls), !.extra = Setting(cls, "extra"), !.frozen = Setting(cls, "frozen"),
                          !.byname = Setting(cls, "byname"), !.strict = Setting(cls, "strict")]
  IN \A a \in Tried(cls) : Accepts(flat, a) = Accepts(cls, a)
\* the settings of the plugin only ever reject more
Stricter == Done => \A a \in Tried(cls) : AcceptsWith(cls, a, [typed |-> TRUE, forbid |-> TRUE]) => Accepts(cls, a)
\* only extra = forbid looks at names nobody has
Extra == Done /\ Setting(cls, "extra") # "forbid" => \A a \in Tried(cls) : Len(a) = 1 /\ a[1][1] = "q" => Accepts(cls, a) = Accepts(cls, <<>>)
=============================================================================
