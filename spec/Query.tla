------------------------------- MODULE Query -------------------------------
(* JSONPath queries.

   A path is [root, steps]; the steps are records with field op:
     child(name)  names(names)  wild  idx(subs)  desc(name)  descwild  descthen
     filter(e)  rfilter(e)  prop(name)  props(names)  wildprop
   subs is a list of [w, i, hf, from, ht, to, hs, step]: w = "i" index, "*" all, ":" slice.
   A filter is [f, ...]: "exists"(o, p) "cmp"(op, a, b) "and"/"or"(a, b) "not"(a) "true" "false", and
   "re"(a, pre, v, post): the texts a contain v, at the beginning if pre, at the end if post;
   an operand is [o, p, y, v]: o = "at" / "root" with path p, or "lit" of type y with text v. *)
EXTENDS Tree

Flat(s, F(_)) == FlattenSeq(TLCEval([i \in 1..Len(s) |-> F(s[i])]))

(* ---- subscripts; indexes count from 0 as in the path ---- *)
RECURSIVE Count(_, _, _)
Count(from, to, step) ==
  IF (step > 0 /\ from >= to) \/ (step < 0 /\ from <= to) THEN <<>>
  ELSE <<from>> \o Count(from + step, to, step)

Clip(s, len) == SelectSeq(s, LAMBDA x : 0 <= x /\ x < len)
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b

SubIndexes(s, len) ==
  LET neg(x) == IF x < 0 THEN x + len ELSE x IN
  CASE s.w = "*" -> Count(0, len, 1)
    [] s.w = "i" -> Clip(<<neg(s.i)>>, len)
    [] s.w = ":" ->
         LET step == IF s.hs THEN s.step ELSE 1
             from == IF s.hf THEN neg(s.from) ELSE IF step > 0 THEN 0 ELSE len - 1
             to == IF s.ht THEN neg(s.to) ELSE IF step > 0 THEN len ELSE -1
         IN IF step > 0 THEN Clip(Count(Larger(from, 0), Smaller(to, len), step), len)
            ELSE Clip(Count(Smaller(from, len), Larger(to, -1), step), len)

Indexes(subs, len) == Flat(subs, LAMBDA s : SubIndexes(s, len))

(* ---- values in filters ---- *)
TypeOf(n) ==
  IF n.k # "v" THEN "?"
  ELSE CASE n.t = "!!int" -> "num" [] n.t = "!!float" -> "num" [] n.t = "!!bool" -> "bool"
         [] n.t = "!!null" -> "null" [] n.t = "!!str" -> "str" [] OTHER -> "?"

(* "<", "=", ">" or "#" for not comparable *)
Compare(a, b) ==
  IF a.y # b.y THEN "#"
  ELSE CASE a.y = "num" -> LET d == NumOrder(a.v, b.v) IN IF d < 0 THEN "<" ELSE IF d > 0 THEN ">" ELSE "="
         [] a.y = "null" -> "="
         [] a.y = "bool" -> IF Lower(a.v) = Lower(b.v) THEN "=" ELSE "#"
         [] a.y = "str" -> IF a.v = b.v THEN "=" ELSE "#"
         [] OTHER -> "#"

Holds(op, c) ==
  CASE op = "==" -> c = "=" [] op = "!=" -> c # "="
    [] op = "<" -> c = "<" [] op = "<=" -> c \in {"<", "="}
    [] op = ">" -> c = ">" [] op = ">=" -> c \in {">", "="}

RECURSIVE Steps(_, _, _)
RECURSIVE Filter(_, _, _)

FindPath(p, node) == \* node: the document, or the node a filter looks at
  IF p.steps = <<>> /\ ~p.root THEN (IF node.k = "0" THEN <<>> ELSE <<node>>)
  ELSE Steps(p.steps, IF node.k = "d" THEN node.c[1] ELSE node, node)

Operand(o, node, root) ==
  CASE o.o = "lit" -> <<[y |-> o.y, v |-> o.v]>>
    [] o.o = "at" -> MapSeq(FindPath(o.p, node), LAMBDA n : [y |-> TypeOf(n), v |-> n.v])
    [] o.o = "root" -> MapSeq(FindPath(o.p, root), LAMBDA n : [y |-> TypeOf(n), v |-> n.v])

Filter(e, node, root) ==
  CASE e.f = "true" -> TRUE
    [] e.f = "false" -> FALSE
    [] e.f = "exists" -> Len(IF e.o = "at" THEN FindPath(e.p, node) ELSE FindPath(e.p, root)) > 0
    [] e.f = "not" -> ~Filter(e.a, node, root)
    [] e.f = "and" -> Filter(e.a, node, root) /\ Filter(e.b, node, root)
    [] e.f = "or" -> Filter(e.a, node, root) \/ Filter(e.b, node, root)
    [] e.f = "re" ->
         LET A == Operand(e.a, node, root) IN
         /\ A # <<>>
         /\ \A i \in 1..Len(A) :
              /\ A[i].y = "str"
              /\ IF e.pre /\ e.post THEN A[i].v = e.v
                 ELSE IF e.pre THEN HasPrefix(A[i].v, e.v)
                 ELSE IF e.post THEN HasSuffix(A[i].v, e.v)
                 ELSE HasSub(A[i].v, e.v)
    [] e.f = "cmp" ->
         LET A == Operand(e.a, node, root) B == Operand(e.b, node, root) IN
         /\ A # <<>> /\ B # <<>>
         /\ \A i \in 1..Len(A), j \in 1..Len(B) : Holds(e.op, Compare(A[i], B[j]))

ChildOf(n, name) ==
  IF n.k # "m" THEN <<>> ELSE LET p == KeyPos(n, name) IN IF p = 0 THEN <<>> ELSE <<n.c[p + 1]>>

KeyOf(n, name) ==
  IF n.k # "m" THEN <<>> ELSE LET p == KeyPos(n, name) IN IF p = 0 THEN <<>> ELSE <<n.c[p]>>

(* every entry with one of the names: off = 1 the values, off = 0 the keys *)
EntriesOf(n, names, off) ==
  IF n.k # "m" THEN <<>>
  ELSE Flat(names, LAMBDA name :
         FlattenSeq(TLCEval([i \in 1..Len(n.c) |-> IF i % 2 = 1 /\ n.c[i].v = name THEN <<n.c[i + off]>> ELSE <<>>])))

Children(n) ==
  CASE n.k = "m" -> TLCEval([i \in 1..(Len(n.c) \div 2) |-> n.c[2 * i]])
    [] n.k = "s" -> n.c
    [] OTHER -> <<>>

(* the nodes one step selects from a node *)
Select(s, n, root) ==
  CASE s.op = "child" -> ChildOf(n, s.name)
    [] s.op = "names" -> EntriesOf(n, s.names, 1)
    [] s.op = "wild" -> Children(n)
    [] s.op = "idx" ->
         IF n.k = "s" THEN LET ix == Indexes(s.subs, Len(n.c)) IN TLCEval([i \in 1..Len(ix) |-> n.c[ix[i] + 1]])
         ELSE <<>>
    [] s.op = "desc" -> Flat(Preorder(n), LAMBDA x : ChildOf(x, s.name))
    [] s.op = "descwild" -> Flat(Preorder(n), LAMBDA x : Children(x))
    [] s.op = "descthen" -> Preorder(n)
    [] s.op = "filter" ->
         IF n.k = "s" THEN SelectSeq(n.c, LAMBDA x : Filter(s.e, x, root))
         ELSE IF Filter(s.e, n, root) THEN <<n>> ELSE <<>>
    [] s.op = "rfilter" -> IF Filter(s.e, n, root) THEN <<n>> ELSE <<>>
    [] s.op = "prop" -> KeyOf(n, s.name)
    [] s.op = "props" -> EntriesOf(n, s.names, 0)
    [] s.op = "wildprop" -> IF n.k = "m" THEN TLCEval([i \in 1..(Len(n.c) \div 2) |-> n.c[2 * i - 1]]) ELSE <<>>

Steps(steps, node, root) ==
  IF steps = <<>> THEN (IF node.k = "0" THEN <<>> ELSE <<node>>)
  ELSE Flat(Select(Head(steps), node, root), LAMBDA x : Steps(Tail(steps), x, root))

(* the nodes a list of paths selects in a document, in order, with repetitions *)
Find(paths, doc) ==
  IF doc.k = "d" /\ doc.c = <<>> THEN <<>> ELSE Flat(paths, LAMBDA p : FindPath(p, doc))

FindIds(paths, doc) == MapSeq(Find(paths, doc), LAMBDA n : n.id)

(* a path that can be created: child names only *)
Buildable(p) == \A i \in 1..Len(p.steps) : p.steps[i].op \in {"child", "names"}
=============================================================================
