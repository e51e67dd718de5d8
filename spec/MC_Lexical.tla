---------------------------- MODULE MC_Lexical ------------------------------
(* Small scope: values of every scalar type, around the corners of the way   *)
(* they are written: few digits with every place of the point, exponents     *)
(* around the switch between the notations, ends of months and years, every  *)
(* kind of time zone, durations around each unit.                            *)
EXTENDS Lexical, TLC, Json, IOUtils

Seed == atoi(IOEnv.MC_SEED)
Stride == atoi(IOEnv.MC_STRIDE)
Deep == IOEnv.MC_DEEP = "1"
Types == {"bool", "int", "dec", "float", "date", "time", "dtm", "tdl", "uuid", "ip", "text"}

Sm == IF Deep THEN {0, 1, 4, 5, 9} ELSE {0, 1, 9}
NZ == Sm \ {0}
Ds3 == {<<d>> : d \in NZ} \cup {<<d, e>> : d \in NZ, e \in Sm} \cup {<<d, e, f>> : d \in NZ, e \in Sm, f \in Sm}
Long == {[i \in 1..n |-> IF i = 1 THEN d ELSE e] : n \in {7, 15, 16, 19, 20, 38}, d \in {1, 9}, e \in {0, 9}}
Bools == {[b |-> x] : x \in BOOLEAN}
Ints == {[neg |-> n, ds |-> ds] : n \in BOOLEAN, ds \in Ds3 \cup Long} \cup {[neg |-> FALSE, ds |-> <<0>>]}
Decs == {[neg |-> n, ds |-> ds, exp |-> e] : n \in BOOLEAN, ds \in Ds3 \cup {<<0>>} \cup {x \in Long : Len(x) > 15}, e \in -9..4}
Floats == {[neg |-> n, ds |-> ds, p |-> p] : n \in BOOLEAN, ds \in {x \in Ds3 \cup {[i \in 1..15 |-> 1 + (i % 3)], [i \in 1..15 |-> IF i = 1 THEN 1 ELSE IF i = 15 THEN 2 ELSE 0]} : x[Len(x)] # 0}, p \in (-6..19) \cup {-300, -99, -10, 100, 101, 300}}
          \cup {[neg |-> n, ds |-> <<0>>, p |-> 0] : n \in BOOLEAN}
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MLen(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
Dates == {[y |-> y, m |-> m, d |-> d] : y \in {1, 99, 999, 1900, 1969, 2000, 2023, 2024, 9999}, m \in 1..12, d \in {1, 9, 28, 29, 30, 31}}
DatesOk == {x \in Dates : x.d <= MLen(x.y, x.m)}
Uss == {0, 1, 10, 999, 1000, 120000, 500000, 999999}
Tzs == {NoTz, 0, 330, -90, -5, 1, 1439, -720, 60}
Times == {[h |-> h, mi |-> mi, s |-> s, us |-> us, tz |-> tz] : h \in {0, 9, 23}, mi \in {0, 7, 59}, s \in {0, 5, 59}, us \in Uss, tz \in Tzs}
Dtms == {[y |-> d.y, m |-> d.m, d |-> d.d, h |-> t.h, mi |-> t.mi, s |-> t.s, us |-> t.us, tz |-> t.tz] :
           d \in {x \in DatesOk : x.m \in {1, 2, 12} /\ x.d \in {1, 28, 29, 31}}, t \in {x \in Times : x.mi \in {0, 59} /\ x.s \in {0, 59} /\ x.us \in {0, 10, 120000} /\ x.tz \in {NoTz, 0, 330, -720}}}
Tdls == {[neg |-> n, days |-> d, secs |-> s, us |-> us] : n \in BOOLEAN, d \in {0, 1, 7, 29, 30, 31, 364, 365, 366, 400, 729, 730, 3650, 999999999},
           s \in {0, 1, 9, 59, 60, 61, 600, 3599, 3600, 3601, 3661, 36000, 86399}, us \in Uss}
TdlsOk == {x \in Tdls : (x.days = 0 /\ x.secs = 0 /\ x.us = 0 => ~x.neg) /\ (x.days = 999999999 => (x.neg => x.secs = 0 /\ x.us = 0))}
Uuids == {[hex |-> [i \in 1..32 |-> CASE i \in S -> a [] OTHER -> b]] : S \in {{}, {1}, {8}, {9}, {12}, {13}, {16}, {17}, {20}, {21}, {32}, 1..4, 13..20}, a \in {0, 1, 10, 15}, b \in {0, 9, 10, 15}}
Ips == {[q |-> <<a, b, c, d>>] : a \in {0, 10, 255}, b \in {0, 9, 99, 100}, c \in {1, 255}, d \in {0, 1, 199, 255}}
\* characters: names of the special ones
ChSeq == <<"a", "Z", "0", "lt", "gt", "amp", "quot", "apos", "sp", "eacute", "snow", "face", "rsb", "slash", "colon", "eq", "semi", "hash", "nbsp", "brace", "pct", "back", "dash", "nl", "tab">>
Chs == {ChSeq[i] : i \in 1..(Len(ChSeq) - 2)}
Some == {"a", "0", "lt", "amp", "quot", "eacute", "sp", "dash", "rsb"}
\* words that mean something elsewhere
Words == {<<"T", "r", "u", "e">>, <<"F", "a", "l", "s", "e">>, <<"N", "o", "n", "e">>, <<"n", "u", "l", "l">>, <<"N", "a", "N">>, <<"i", "n", "f">>, <<"0", "x", "1">>, <<"1", "e", "5">>, <<"1", ".", "0">>, <<"0", "0", "7">>, <<"n", "i", "l">>, <<"dash", "0">>, <<"+", "1">>, <<"1", "_", "0">>, <<"P", "1", "D">>, <<"n", "o">>, <<"o", "n">>, <<"1", ",", "5">>, <<"1", "semi", "2">>, <<"a", ",", "b">>, <<"[", "]">>, <<"brace", "rbrace">>, <<"amp", "a", "m", "p", "semi">>, <<"N", "U", "L", "L">>, <<"T", "R", "U", "E">>, <<"pct", "s">>, <<"brace", "0", "rbrace">>, <<"$", "x">>, <<"back", "n">>}
Texts == {[cs |-> w] : w \in Words} \cup {[cs |-> <<x>>] : x \in Chs \ {"sp"}} \cup {[cs |-> <<x, y>>] : x \in Chs, y \in Chs} \cup
         (IF Deep THEN {[cs |-> <<x, y, z>>] : x \in Chs, y \in Some, z \in Chs} ELSE {[cs |-> <<x, y, z>>] : x \in Some, y \in Some, z \in Some})
         \cup {[cs |-> <<"a", x, "nl", y, "a">>] : x \in Some, y \in Some} \cup {[cs |-> <<"a", "tab", x>>] : x \in Chs}
\* not blank
TextsOk == {x \in Texts : \E i \in DOMAIN x.cs : x.cs[i] \notin {"sp", "nl", "tab", "nbsp"}}

Dom(ty) == CASE ty = "bool" -> Bools [] ty = "int" -> Ints [] ty = "dec" -> Decs [] ty = "float" -> Floats [] ty = "date" -> DatesOk [] ty = "time" -> Times
             [] ty = "dtm" -> Dtms [] ty = "tdl" -> TdlsOk [] ty = "uuid" -> Uuids [] ty = "ip" -> Ips [] OTHER -> TextsOk

RECURSIVE Sum(_, _)
Sum(ns, k) == IF ns = <<>> THEN 0 ELSE k * ns[1] + Sum(Tail(ns), k + 2)
ChNo(c) == IF \E n \in DOMAIN ChSeq : ChSeq[n] = c THEN CHOOSE n \in DOMAIN ChSeq : ChSeq[n] = c ELSE 0
Num(ty, v) ==
  CASE ty \in {"bool", "ip"} -> 0 [] ty = "int" -> Sum(v.ds, 1) + (IF v.neg THEN 1 ELSE 0) [] ty = "dec" -> Sum(v.ds, 1) + 5 * v.exp + (IF v.neg THEN 1 ELSE 0)
    [] ty = "float" -> Sum(v.ds, 1) + 5 * v.p + (IF v.neg THEN 1 ELSE 0) [] ty = "date" -> v.y + 3 * v.m + v.d
    [] ty = "time" -> v.h + 3 * v.mi + 5 * v.s + v.us + 7 * v.tz [] ty = "dtm" -> v.y + 3 * v.m + v.d + v.h + 3 * v.mi + 5 * v.s + v.us + 7 * v.tz
    [] ty = "tdl" -> v.days + 3 * v.secs + v.us + (IF v.neg THEN 1 ELSE 0) [] ty = "uuid" -> 0 [] OTHER -> Sum([i \in DOMAIN v.cs |-> ChNo(v.cs[i])], 1)
\* one of each few, which ones says the seed
Turn(ty, v) == (Num(ty, v) + 100000 + Seed * 7) % Stride = 0

VARIABLES ty, done, val, turn
vars == <<ty, done, val, turn>>
Nothing == [b |-> FALSE]
Export(t, v) == PrintT("CASE " \o ToJson([ty |-> t, v |-> v, text |-> Print(t, v), forms |-> Forms(t, v)]))
Init == ty \in Types \cup {"places"} /\ done = FALSE /\ val = <<Nothing>> /\ turn = FALSE
Next == /\ ~done /\ done' = TRUE /\ ty' = ty
        /\ IF ty = "places" THEN val' = val /\ turn' = FALSE /\ PrintT("PLACES " \o ToJson([both |-> Places, written |-> Computed]))
           ELSE \E v \in Dom(ty) : val' = <<v>> /\ turn' = FALSE /\ IF Turn(ty, v) \/ ty \in {"bool", "ip", "uuid"} \/ (ty = "text" /\ v.cs \in Words) THEN Export(ty, v) ELSE TRUE
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
V == val[1]
Mine == done /\ ty # "places"
\* C25: what is written is read as the value it was, and so is every other form of it
Faithful == Mine => Read(ty, Print(ty, V)) = <<V>>
Alike == Mine => \A f \in Forms(ty, V) : Read(ty, f) = <<V>>
\* a text is never empty nor blank at its ends, but for texts themselves
Solid == Mine /\ ty # "text" => Print(ty, V) # <<>> /\ \A i \in DOMAIN Print(ty, V) : Print(ty, V)[i] \notin {"sp", "nl", "tab", "nbsp"}
\* the opposite number is the same text but for its sign
Mirror == Mine /\ ty \in {"int", "dec", "float", "tdl"} /\ V.neg => Print(ty, V) = <<"-">> \o Print(ty, [V EXCEPT !.neg = FALSE])
\* dates and times are ordered as their texts are
Width == Mine /\ ty = "date" => Len(Print(ty, V)) = 10
\* a point of time is its date and its time
Joint == Mine /\ ty = "dtm" => Print(ty, V) = PDate(V) \o <<"T">> \o PTime(V)
=============================================================================
