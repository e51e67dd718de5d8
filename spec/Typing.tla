------------------------------- MODULE Typing -------------------------------
(* What the static typing plugin has to know about a class: its constructor, *)
(* from the way its fields are written down.                                 *)
(*                                                                           *)
(* The right-hand side of a field, as it stands in the source:               *)
(*   [r |-> "none"]                  only annotated                          *)
(*   [r |-> "plain"]                 a value                                 *)
(*   [r |-> "call", call |-> ...]    a call of attr, element, wrapped, Field *)
(* a call: [fn, inner, dflt, alias, valias, salias, frozen, strict]          *)
(*   inner   <<>> or <<call>>: the entity a wrapper wraps                    *)
(*   dflt    "no" none given, "val" default=value, "dots" default=...,       *)
(*           "fac" default_factory=callable, "nofac" default_factory=None    *)
(*   alias, valias, salias  "" or the text                                   *)
(*   frozen, strict         "no", "true" or "false"                          *)
(* A class: [name, bases (<<>> or <<class>>), fields, extra, frozen, byname, strict] *)
(*   fields: sequences of [name, rhs]; a setting is "no" where not given     *)
EXTENDS Naturals, Sequences, FiniteSets

Last1(s) == s[Len(s)]
\* the calls a field is given by, the innermost one first: what is said further in goes first
RECURSIVE Calls(_)
Calls(call) == (IF call.inner = <<>> THEN <<>> ELSE Calls(call.inner[1])) \o <<call>>
First(s, P(_)) == LET is == {i \in DOMAIN s : P(s[i])} IN IF is = {} THEN <<>> ELSE <<s[CHOOSE i \in is : \A j \in is : i <= j]>>

Given(call) == call.dflt \in {"val", "fac"}
HasDefault(rhs) ==
  CASE rhs.r = "none" -> FALSE
    [] rhs.r = "plain" -> TRUE
    [] OTHER -> First(Calls(rhs.call), Given) # <<>>
Named(call) == call.alias # "" \/ call.valias # ""
NameOf(call) == IF call.valias # "" THEN call.valias ELSE call.alias
AliasOf(rhs) == IF rhs.r # "call" THEN "" ELSE LET c == First(Calls(rhs.call), Named) IN IF c = <<>> THEN "" ELSE NameOf(c[1])
Frozen(rhs) == rhs.r = "call" /\ LET c == First(Calls(rhs.call), LAMBDA k : k.frozen # "no") IN c # <<>> /\ c[1].frozen = "true"
Strict(rhs, dflt) == IF rhs.r # "call" THEN dflt
                     ELSE LET c == First(Calls(rhs.call), LAMBDA k : k.strict # "no") IN IF c = <<>> THEN dflt ELSE c[1].strict = "true"
\* a field that has both kinds of default is none; to say there is no factory and give one is not meaningful
Sound(rhs) == rhs.r = "call" => LET cs == Calls(rhs.call) IN ~\E i, j \in DOMAIN cs : cs[i].dflt \in {"val", "nofac"} /\ cs[j].dflt = "fac"

-----------------------------------------------------------------------------
\* settings and fields, the ones of the bases included
RECURSIVE Setting(_, _), AllFields(_)
Setting(c, key) == IF c[key] # "no" THEN c[key] ELSE IF c.bases = <<>> THEN "no" ELSE Setting(c.bases[1], key)
AllFields(c) ==
  LET base == IF c.bases = <<>> THEN <<>> ELSE AllFields(c.bases[1])
      names == {c.fields[i].name : i \in DOMAIN c.fields}
      over(f) == IF f.name \in names THEN c.fields[CHOOSE i \in DOMAIN c.fields : c.fields[i].name = f.name] ELSE f
      known == {base[i].name : i \in DOMAIN base}
  IN [i \in DOMAIN base |-> over(base[i])] \o SelectSeq(c.fields, LAMBDA f : f.name \notin known)

\* the parameters of the constructor
Params(c) ==
  LET fs == AllFields(c)
      byname == Setting(c, "byname") = "true"
      st == Setting(c, "strict") = "true"
  IN [i \in DOMAIN fs |-> LET a == AliasOf(fs[i].rhs) IN
       [key |-> IF byname \/ a = "" THEN fs[i].name ELSE a, required |-> ~HasDefault(fs[i].rhs), strict |-> Strict(fs[i].rhs, st)]]
\* a call: a sequence of <<name, kind of the value>>; every field is a number, "text" is the number as a text
Names(args) == {args[i][1] : i \in DOMAIN args}
\* the settings of the plugin: [typed |-> BOOLEAN, forbid |-> BOOLEAN]: it is to take the annotations as they stand, to allow no other names.
\* With both off a call is accepted if and only if it is valid at run time.
AcceptsWith(c, args, conf) ==
  LET ps == Params(c) IN
  /\ \A i \in DOMAIN ps : ps[i].required => ps[i].key \in Names(args)
  /\ conf.forbid \/ Setting(c, "extra") = "forbid" => \A n \in Names(args) : \E i \in DOMAIN ps : ps[i].key = n
  /\ \A i \in DOMAIN args : \A j \in DOMAIN ps : ps[j].key = args[i][1] /\ (conf.typed \/ ps[j].strict) => args[i][2] = "number"
Accepts(c, args) == AcceptsWith(c, args, [typed |-> FALSE, forbid |-> FALSE])
\* assigning to a field of an instance
Assigns(c, name) == LET fs == AllFields(c) IN
  /\ Setting(c, "frozen") # "true"
  /\ \E i \in DOMAIN fs : fs[i].name = name /\ ~Frozen(fs[i].rhs)
=============================================================================
