------------------------------- MODULE Tree -------------------------------
(* YAML documents as trees.

   A node is a record [k, t, v, c, h, l, f, a, id]:
     k   kind: "d" document, "m" map, "s" list, "v" scalar, "a" alias, "0" no node
     t   tag, v  scalar text (alias: the label of the node it stands for)
     c   children; the children of a map alternate keys and values
     h, l, f  head, line and foot comment
     a   label of the node if an alias stands for it, "" otherwise; it is a name for the node itself, not part of
         its data, so it stays when the node gets another value and is not copied
     id  identity of the node while one overlay is applied (the address of the node in the implementation):
         Number gives every node of a document its own id, nodes that an action creates have the id New.

   Inserting a value always inserts a copy, so a tree never shares nodes; this is property C10 by construction, and
   what the conformance checks hold the implementation to. *)
EXTENDS Strings, FiniteSets

New == <<0>>

Node(k, t, v, c, h, l, f, a, id) ==
  [k |-> k, t |-> t, v |-> v, c |-> c, h |-> h, l |-> l, f |-> f, a |-> a, id |-> id]

Plain(k, t, v, c) == Node(k, t, v, c, "", "", "", "", New)
Scalar(t, v) == Plain("v", t, v, <<>>)
Str(v) == Scalar("!!str", v)
Map(c) == Plain("m", "!!map", "", c)
List(c) == Plain("s", "!!seq", "", c)
Doc(root) == Plain("d", "", "", <<root>>)
NoNode == Plain("0", "", "", <<>>)

MapSeq(s, F(_)) == TLCEval([i \in 1..Len(s) |-> F(s[i])])

RECURSIVE Number(_, _)
Number(n, p) ==
  Node(n.k, n.t, n.v, TLCEval([i \in 1..Len(n.c) |-> Number(n.c[i], Append(p, i))]), n.h, n.l, n.f, n.a, p)

(* the value as it is inserted: a copy without identity *)
RECURSIVE Copy(_)
Copy(n) == Node(n.k, n.t, n.v, TLCEval([i \in 1..Len(n.c) |-> Copy(n.c[i])]), n.h, n.l, n.f, "", New)

RECURSIVE NoComments(_)
NoComments(n) ==
  Node(n.k, n.t, n.v, TLCEval([i \in 1..Len(n.c) |-> NoComments(n.c[i])]), "", "", "", n.a, n.id)

(* only what a YAML reader sees: kinds, types, texts and order *)
RECURSIVE Data(_)
Data(n) == [k |-> n.k, t |-> n.t, v |-> n.v, c |-> TLCEval([i \in 1..Len(n.c) |-> Data(n.c[i])])]

(* nodes in document order, keys included *)
RECURSIVE Preorder(_)
Preorder(n) == <<n>> \o FlattenSeq(TLCEval([i \in 1..Len(n.c) |-> Preorder(n.c[i])]))

RECURSIVE Size(_)
Size(n) == 1 + FoldLeft(LAMBDA a, x : a + Size(x), 0, n.c)

RECURSIVE HasId(_, _)
HasId(n, id) == n.id = id \/ \E i \in 1..Len(n.c) : HasId(n.c[i], id)

(* the subtree with this identity; the tree must have it *)
RECURSIVE ById(_, _)
ById(n, id) ==
  IF n.id = id THEN n
  ELSE ById(n.c[CHOOSE i \in 1..Len(n.c) : HasId(n.c[i], id)], id)

(* the tree with that subtree exchanged; unchanged if the node is no longer part of the tree *)
RECURSIVE Put(_, _, _)
Put(n, id, m) ==
  IF n.id = id THEN m
  ELSE Node(n.k, n.t, n.v, TLCEval([i \in 1..Len(n.c) |-> Put(n.c[i], id, m)]), n.h, n.l, n.f, n.a, n.id)

RemoveRange(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s))

IsMap(n) == n.k = "m"
Keys(n) == {i \in 1..Len(n.c) : i % 2 = 1}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* position of the first key with this text, 0 if there is none *)
KeyPos(n, name) ==
  LET K == {i \in Keys(n) : n.c[i].v = name} IN IF K = {} THEN 0 ELSE MinOf(K)

(* ---- types ---- *)
(* an untagged scalar, such as the key of an injected path, is what its text says *)
Nulls == {"", "~", "null", "Null", "NULL"}
Booleans == {"true", "True", "TRUE", "false", "False", "FALSE"}
TagOf(n) ==
  IF n.t # "" THEN n.t
  ELSE IF n.v \in Nulls THEN "!!null" ELSE IF n.v \in Booleans THEN "!!bool" ELSE IF IsDec(n.v) \/ IsBased(n.v) THEN "!!int"
  ELSE IF IsPoint(n.v) THEN "!!float" ELSE "!!str"

TreeType(n) == IF n.t # "" THEN n.t ELSE CASE n.k = "m" -> "!!map" [] n.k = "s" -> "!!seq" [] n.k = "v" -> TagOf(n) [] OTHER -> ""

(* ---- aliases ---- *)
(* a node that was replaced keeps its label, for the aliases still stand for it, but has no anchor any more *)
Unanchored(a) == IF a = "" \/ HasPrefix(a, "~") THEN a ELSE "~" \o a

RECURSIVE HasOne(_, _)
HasOne(n, A) == n.a \in A \/ \E i \in 1..Len(n.c) : HasOne(n.c[i], A)
HasLabel(n, a) == HasOne(n, {a, Unanchored(a)})

RECURSIVE ByOne(_, _)
ByOne(n, A) == IF n.a \in A THEN n ELSE ByOne(n.c[CHOOSE i \in 1..Len(n.c) : HasOne(n.c[i], A)], A)
ByLabel(n, a) == ByOne(n, {a, Unanchored(a)})

(* the tree with every alias replaced by what it stands for; dead: subtrees that were removed from the document *)
RECURSIVE Resolve(_, _, _)
Resolve(n, doc, dead) ==
  IF n.k = "a"
  THEN LET home == IF HasLabel(doc, n.v) THEN doc
                   ELSE dead[MinOf({i \in 1..Len(dead) : HasLabel(dead[i], n.v)})]
           r == Resolve(ByLabel(home, n.v), doc, dead)
       IN Node(r.k, r.t, r.v, r.c, n.h, n.l, n.f, "", n.id)
  ELSE Node(n.k, n.t, n.v, TLCEval([i \in 1..Len(n.c) |-> Resolve(n.c[i], doc, dead)]), n.h, n.l, n.f, n.a, n.id)

RECURSIVE HasAlias(_)
HasAlias(n) == n.k = "a" \/ \E i \in 1..Len(n.c) : HasAlias(n.c[i])

(* the aliases whose anchor comes before them in the document *)
Staying(doc) ==
  LET P == Preorder(doc) IN {P[i].id : i \in {i \in 1..Len(P) : P[i].k = "a" /\ \E j \in 1..(i - 1) : P[j].a = P[i].v}}

(* as Resolve, with a mark and the label at what the aliases S stand for *)
RECURSIVE Flagged(_, _, _, _)
Flagged(n, S, doc, dead) ==
  IF n.k = "a" THEN LET r == Resolve(n, doc, dead) IN IF n.id \in S THEN [r EXCEPT !.a = "*" \o n.v] ELSE r
  ELSE [n EXCEPT !.c = TLCEval([i \in 1..Len(n.c) |-> Flagged(n.c[i], S, doc, dead)])]

(* a well-formed tree *)
RECURSIVE WellFormed(_)
WellFormed(n) ==
  /\ n.k \in {"d", "m", "s", "v", "a", "0"}
  /\ n.k = "m" => Len(n.c) % 2 = 0
  /\ n.k = "d" => Len(n.c) <= 1
  /\ n.k \in {"v", "a", "0"} => n.c = <<>>
  /\ n.k \notin {"v", "a"} => n.v = ""
  /\ \A i \in 1..Len(n.c) : n.c[i].k # "d" /\ WellFormed(n.c[i])
=============================================================================
