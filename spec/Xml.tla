-------------------------------- MODULE Xml ---------------------------------
(* The infoset and the destructive reader / append-only writer over it.      *)
(* A reader element is                                                       *)
(*   [tag, text, tail, ha, attrs, kids, idx, line]                           *)
(* ha  : the attribute set is still there (pop_attributes takes it away)     *)
(* idx : cursor, the number of sub-elements already passed                   *)
(* Absent text/tail and empty ones are the same thing ("").                  *)
EXTENDS Base

XSINIL == "{http://www.w3.org/2001/XMLSchema-instance}nil"

\* comments and processing instructions vanish, the text after one continues the text before it
Noise(n) == n.tag \in {"#comment", "#pi"}
Joined(n) ==                                  \* [text, kids] without noise
  Fold(LAMBDA acc, k : IF ~Noise(k) THEN [acc EXCEPT !.kids = Append(@, k)]
                       ELSE IF acc.kids = <<>> THEN [acc EXCEPT !.text = @ \o k.tail]
                       ELSE [acc EXCEPT !.kids[Len(acc.kids)].tail = @ \o k.tail],
       [text |-> n.text, kids |-> <<>>], n.kids)
RECURSIVE Init(_)
Init(n0) ==
  LET j == Joined(n0)  n == [n0 EXCEPT !.text = j.text, !.kids = j.kids] IN [tag |-> n.tag, text |-> n.text, tail |-> n.tail, ha |-> TRUE, attrs |-> n.attrs,
            kids |-> Map(Init, n.kids), idx |-> 0, line |-> n.line]

\* plain tree (no cursor, no line), attributes as a set of pairs
RECURSIVE Plain(_)
Plain(n) == [tag |-> n.tag, text |-> n.text, tail |-> n.tail, attrs |-> Range(n.attrs), kids |-> Map(Plain, n.kids)]

-----------------------------------------------------------------------------
(* The three search rules, over the sequence of sub-element tags.            *)
(* Result: at = index found (0: none), to = index it is moved to,            *)
(* idx = new cursor.                                                         *)
NoHit(idx) == [at |-> 0, to |-> 0, idx |-> idx]

FirstFrom(tags, tag, from) ==
  LET S == {i \in from .. Len(tags) : tags[i] = tag} IN IF S = {} THEN 0 ELSE MinOf(S)

LookBehindHit(tags, idx, tag) == idx > 0 /\ idx <= Len(tags) /\ tags[idx] = tag

Seek(tags, idx, tag, mode, lookBehind, step) ==
  IF lookBehind /\ LookBehindHit(tags, idx, tag) THEN [at |-> idx, to |-> idx, idx |-> idx]
  ELSE CASE mode = "strict" ->
              IF idx < Len(tags) /\ tags[idx + 1] = tag
              THEN [at |-> idx + 1, to |-> idx + 1, idx |-> IF step THEN idx + 1 ELSE idx]
              ELSE NoHit(idx)
         [] mode = "ordered" ->
              LET p == FirstFrom(tags, tag, idx + 1)
              IN IF p = 0 THEN NoHit(idx) ELSE [at |-> p, to |-> p, idx |-> IF step THEN p ELSE idx]
         [] mode = "unordered" ->
              LET p == FirstFrom(tags, tag, idx + 1)
              IN IF p = 0 THEN NoHit(idx) ELSE [at |-> p, to |-> idx + 1, idx |-> IF step THEN idx + 1 ELSE idx]

\* exchange of two items (an unordered hit trades places with the element at the cursor)
Swap(s, i, j) == IF i = j THEN s ELSE [s EXCEPT ![i] = s[j], ![j] = s[i]]

TagsOf(el) == Map(LAMBDA k : k.tag, el.kids)

\* [el, pos] : pos is the index of the hit among el.kids, 0 if none
Find(el, tag, mode, lookBehind, step) ==
  LET h == Seek(TagsOf(el), el.idx, tag, mode, lookBehind, step)
  IN IF h.at = 0 THEN [el |-> el, pos |-> 0]
     ELSE [el |-> [el EXCEPT !.kids = Swap(el.kids, h.at, h.to), !.idx = h.idx], pos |-> h.to]
PopElement(el, tag, mode) == Find(el, tag, mode, FALSE, TRUE)
SetKid(el, pos, kid) == [el EXCEPT !.kids[pos] = kid]

PopText(el) == [el |-> [el EXCEPT !.text = ""], v |-> el.text]
PopAttr(el, name) ==
  IF ~el.ha THEN [el |-> el, v |-> Nil]
  ELSE [el |-> [el EXCEPT !.attrs = ADel(el.attrs, name)], v |-> AGet(el.attrs, name)]
PopAttrs(el) ==                               \* <<>> when the set has been taken already
  [el |-> [el EXCEPT !.attrs = <<>>, !.ha = FALSE], v |-> IF el.ha THEN Some(el.attrs) ELSE Nil]
GetAttr(el, name) == IF el.ha THEN AGet(el.attrs, name) ELSE Nil
Emptied(el) == [el EXCEPT !.text = "", !.tail = "", !.ha = FALSE, !.attrs = <<>>, !.kids = <<>>, !.idx = 0]

PopNil(el) == LET p == PopAttr(el, XSINIL)
              IN [el |-> p.el, nil |-> Has(p.v) /\ Strip(The(p.v)) \in {"true", "1"}]

-----------------------------------------------------------------------------
(* Data nobody has taken: <<path, what, value, line>>                        *)
RECURSIVE UnboundAt(_, _, _)
UnboundAt(el, path, own) ==
  LET t  == Strip(el.text)
      tl == Strip(el.tail)
      here == (IF t # "" THEN <<[path |-> path, at |-> Nil, v |-> t, line |-> el.line]>> ELSE <<>>)
              \o (IF ~own /\ tl # "" THEN <<[path |-> path, at |-> Nil, v |-> tl, line |-> el.line]>> ELSE <<>>)
              \o Map(LAMBDA a : [path |-> path, at |-> Some(a[1]), v |-> a[2], line |-> el.line], el.attrs)
  IN here \o Flat(Map(LAMBDA k : UnboundAt(k, Append(path, k.tag), FALSE), el.kids))
Unbound(el) == UnboundAt(el, <<>>, TRUE)

-----------------------------------------------------------------------------
(* Writer: elements under construction                                       *)
NewEl(tag, nsmap) == [tag |-> tag, text |-> "", tail |-> "", attrs |-> <<>>, kids |-> <<>>, nsmap |-> nsmap]
IsEmptyEl(w) == w.text = "" /\ w.tail = "" /\ w.attrs = <<>> /\ w.kids = <<>>
SetText(w, s) == [w EXCEPT !.text = s]
SetAttr(w, n, v) == [w EXCEPT !.attrs = APut(w.attrs, n, v)]
AddKid(w, k) == [w EXCEPT !.kids = Append(w.kids, k)]
LastTag(w) == IF w.kids = <<>> THEN Nil ELSE Some(w.kids[Len(w.kids)].tag)
\* what a reader gets of a written element (source lines unknown)
RECURSIVE DocOf(_)
DocOf(w) == [tag |-> w.tag, text |-> w.text, tail |-> w.tail, attrs |-> w.attrs, kids |-> Map(DocOf, w.kids), line |-> 0 - 1]
\* a raw tree becomes a writer element
RECURSIVE FromTree(_)
FromTree(n) == [tag |-> n.tag, text |-> n.text, tail |-> n.tail, attrs |-> n.attrs,
                kids |-> Map(FromTree, n.kids), nsmap |-> <<>>]
=============================================================================
