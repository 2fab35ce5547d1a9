------------------------------ MODULE Actions ------------------------------
(* What the four actions and the injection of a missing path do to a document.

   Merge, Replace and Combine map the selected node and the value of the overlay to the new node; Delete maps the
   document to the document without the node. Only Combine can fail. *)
EXTENDS Query, Markers

Fail(why) == [ok |-> FALSE, n |-> NoNode, why |-> why]
Done(n) == [ok |-> TRUE, n |-> n, why |-> ""]

(* a line comment ends with the line, whatever its markers stand for *)
RECURSIVE OneLine(_)
OneLine(s) == IF HasSuffix(s, "\n") THEN OneLine(SubSeq(s, 1, Len(s) - 1)) ELSE SubstAll(s, "\n", " ")

(* o with the comments of n: each kind of comment that n has replaces the one of o, markers refer to o *)
MergeComments(o, n, value, key) ==
  LET F(s) == Format(s, value, Bare(o.l), Bare(o.h), Bare(o.f), key) IN
  Node(o.k, o.t, o.v, o.c,
       IF n.h # "" THEN F(n.h) ELSE o.h,
       IF n.l # "" THEN OneLine(F(n.l)) ELSE o.l,
       IF n.f # "" THEN F(n.f) ELSE o.f, o.a, o.id)

MergeScalar(o, n, value, key, tag) ==
  LET m == MergeComments(o, n, value, key) IN
  Node("v", tag, Format(n.v, value, Bare(o.l), Bare(o.h), Bare(o.f), key), <<>>, m.h, m.l, m.f, o.a, o.id)

AsMap(o) == IF o.k = "m" THEN o ELSE Node("m", "!!map", "", <<>>, o.h, o.l, o.f, o.a, o.id)
AsList(o) == IF o.k = "s" THEN o ELSE Node("s", "!!seq", "", <<>>, o.h, o.l, o.f, o.a, o.id)
WithC(o, c) == Node(o.k, o.t, o.v, c, o.h, o.l, o.f, o.a, o.id)

RECURSIVE Merge(_, _, _)
RECURSIVE MergePairs(_, _, _)
RECURSIVE MergeAll(_, _, _, _)

(* merge n into o; key: the name of the map entry o is the value of, "" if there is none *)
Merge(o, n, key) ==
  CASE n.k = "0" -> o
    [] n.k = "d" -> IF o.c = <<>> \/ n.c = <<>> THEN o
                    ELSE WithC(MergeComments(o, n, o.v, ""), <<Merge(o.c[1], n.c[1], o.v)>> \o Tail(o.c))
    [] n.k = "m" -> MergePairs(AsMap(o), n, 1)
    [] n.k = "s" -> LET l == AsList(o) IN
                    IF n.c = <<>> THEN l
                    ELSE LET m == MergeComments(l, n, l.v, "") IN WithC(m, l.c \o MapSeq(n.c, Sanitized))
    [] n.k = "v" -> MergeScalar(o, n, o.v, key, n.t)

(* the entries of n from position i on *)
MergePairs(o, n, i) ==
  IF i >= Len(n.c) THEN o
  ELSE LET nk == n.c[i] nv == n.c[i + 1] IN
       IF HasMarker(nk.v)
       THEN IF o.c = <<>> THEN MergePairs(WithC(o, <<Sanitized(nk), Sanitized(nv)>>), n, i + 2)
            ELSE MergePairs(WithC(o, MergeAll(o.c, nk, nv, 1)), n, i + 2)
       ELSE LET p == KeyPos(o, nk.v) IN
            IF p = 0 THEN MergePairs(WithC(o, o.c \o <<Sanitized(nk), Sanitized(nv)>>), n, i + 2)
            ELSE LET ok == o.c[p] ov == o.c[p + 1] IN
                 MergePairs(WithC(o, [o.c EXCEPT ![p] = MergeComments(ok, nk, ov.v, ok.v),
                                                 ![p + 1] = Merge(ov, nv, ok.v)]), n, i + 2)

(* a key with markers is merged into every entry *)
MergeAll(c, nk, nv, p) ==
  IF p >= Len(c) THEN c
  ELSE LET ok == c[p] ov == c[p + 1] IN
       MergeAll([c EXCEPT ![p] = MergeScalar(ok, nk, ov.v, ok.v, ok.t), ![p + 1] = Merge(ov, nv, ok.v)], nk, nv, p + 2)

Replace(o, n) ==
  LET F(s) == Format(s, o.v, Bare(o.l), Bare(o.h), Bare(o.f), "") IN
  Node(n.k, n.t, n.v, MapSeq(n.c, Copy),
       IF n.h # "" THEN F(n.h) ELSE o.h,
       IF n.l # "" THEN OneLine(F(n.l)) ELSE o.l,
       IF n.f # "" THEN F(n.f) ELSE o.f, Unanchored(o.a), o.id)

IsBoolText(s) == s \in {"1", "t", "T", "TRUE", "true", "True", "0", "f", "F", "FALSE", "false", "False"}
BoolText(s) == s \in {"1", "t", "T", "TRUE", "true", "True"}

Combine(o, n) ==
  LET m == MergeComments(o, n, o.v, "")
      With(v) == Done(Node(m.k, m.t, v, m.c, m.h, m.l, m.f, m.a, m.id))
  IN CASE o.k # "v" \/ n.k # "v" -> Fail("combine of a map or a list")
       [] o.t = "!!int" ->
            IF ~IsDec(o.v) \/ ~IsDec(n.v) THEN Fail("combine of something that is not a decimal integer")
            ELSE IF ~Fits64(o.v) \/ ~Fits64(n.v) \/ ~Fits64(DecAdd(o.v, n.v)) THEN Fail("combine overflow")
            ELSE With(DecAdd(o.v, n.v))
       [] o.t = "!!bool" ->
            IF ~IsBoolText(o.v) \/ ~IsBoolText(n.v) THEN Fail("combine of something that is not a boolean")
            ELSE With(IF BoolText(o.v) /\ BoolText(n.v) THEN "true" ELSE "false")
       [] OTHER -> LET t == IF m.t \in {"!!null", "!!float", "!!timestamp", "!!merge"} THEN "!!str" ELSE m.t IN
                   Done(Node(m.k, t, o.v \o n.v, m.c, m.h, m.l, m.f, m.a, m.id))

(* ---- where aliases are concerned ----

   An alias that something is merged into or combined with becomes a copy of what it stands for at that time, so that what
   it stands for stays as it is. The trees are the document and the subtrees that went out of it. *)
RECURSIVE Unlabelled(_)
Unlabelled(n) == Node(n.k, n.t, n.v, TLCEval([i \in 1..Len(n.c) |-> Unlabelled(n.c[i])]), n.h, n.l, n.f, "", n.id)

(* trees with the node of this id in tree j, if it is an alias, detached from what it stands for *)
Detach(trees, j, id) ==
  LET o == ById(trees[j], id) IN
  IF o.k # "a" THEN trees
  ELSE [trees EXCEPT ![j] = Put(@, id, Number(Unlabelled(Resolve(o, trees[1], Tail(trees))), id))]

RECURSIVE MergeIn(_, _, _, _, _)
RECURSIVE PairsIn(_, _, _, _, _)
RECURSIVE AllIn(_, _, _, _, _, _)

(* Merge for trees with aliases: merge n into the node with this id of tree j *)
MergeIn(trees, j, id, n, key) ==
  IF n.k = "0" THEN trees
  ELSE LET T == TLCEval(Detach(trees, j, id))
           o == ById(T[j], id)
           \* what is under a node that becomes one of another kind goes out of the document
           With(m) == [T EXCEPT ![j] = Put(@, id, m)] \o (IF m.k # o.k THEN o.c ELSE <<>>)
       IN CASE n.k = "m" -> PairsIn(With(AsMap(o)), j, id, n, 1)
            [] n.k = "d" /\ o.c # <<>> /\ n.c # <<>> -> MergeIn(With(MergeComments(o, n, o.v, "")), j, o.c[1].id, n.c[1], o.v)
            [] OTHER -> With(Merge(o, n, key))

PairsIn(trees, j, id, n, i) ==
  IF i >= Len(n.c) THEN trees
  ELSE LET nk == n.c[i] nv == n.c[i + 1]
           o == ById(trees[j], id)
           With(m) == TLCEval([trees EXCEPT ![j] = Put(@, id, m)])
           p == KeyPos(o, nk.v)
       IN IF HasMarker(nk.v) /\ o.c # <<>> THEN PairsIn(AllIn(trees, j, id, nk, nv, 1), j, id, n, i + 2)
          ELSE IF HasMarker(nk.v) \/ p = 0 THEN PairsIn(With(WithC(o, o.c \o <<Number(Sanitized(nk), id \o <<0, Len(o.c) + 1>>), Number(Sanitized(nv), id \o <<0, Len(o.c) + 2>>)>>)),
                       j, id, n, i + 2)
          ELSE LET ok == o.c[p] ov == o.c[p + 1]
                   T == With(WithC(o, [o.c EXCEPT ![p] = MergeComments(ok, nk, ov.v, ok.v)]))
               IN PairsIn(MergeIn(T, j, ov.id, nv, ok.v), j, id, n, i + 2)

AllIn(trees, j, id, nk, nv, p) ==
  LET o == ById(trees[j], id) IN
  IF p >= Len(o.c) THEN trees
  ELSE LET ok == o.c[p] ov == o.c[p + 1]
           T == [trees EXCEPT ![j] = Put(@, ok.id, MergeScalar(ok, nk, ov.v, ok.v, ok.t))]
       IN AllIn(MergeIn(T, j, ov.id, nv, ok.v), j, id, nk, nv, p + 2)

RECURSIVE Delete(_, _)
Delete(n, id) ==
  LET H == {i \in 1..Len(n.c) : n.c[i].id = id} IN
  IF H # {}
  THEN LET i == MinOf(H) IN
       WithC(n, IF n.k # "m" THEN RemoveRange(n.c, i, i)
                ELSE IF i % 2 = 1 THEN RemoveRange(n.c, i, i + 1)
                ELSE RemoveRange(n.c, i - 1, i))
  ELSE WithC(n, TLCEval([i \in 1..Len(n.c) |-> Delete(n.c[i], id)]))

(* what Delete takes out of the document, for aliases that stand for something in it *)
RECURSIVE Removed(_, _)
Removed(n, id) ==
  LET H == {i \in 1..Len(n.c) : n.c[i].id = id} IN
  IF H # {}
  THEN LET i == MinOf(H) IN
       IF n.k # "m" THEN <<n.c[i]>> ELSE IF i % 2 = 1 THEN <<n.c[i], n.c[i + 1]>> ELSE <<n.c[i - 1], n.c[i]>>
  ELSE Flat(n.c, LAMBDA x : Removed(x, id))

(* ---- injection ---- *)
RECURSIVE Branch(_)
Branch(steps) ==
  IF steps = <<>> THEN Scalar("", "")
  ELSE LET s == Head(steps) sub == Branch(Tail(steps))
           names == IF s.op = "child" THEN <<s.name>> ELSE s.names
       IN Plain("m", "", "", Flat(names, LAMBDA x : <<Scalar("", x), sub>>))

RECURSIVE Scaffold(_)
Scaffold(paths) ==
  IF Len(paths) = 1 THEN Doc(Branch(paths[1].steps))
  ELSE Merge(Scaffold(SubSeq(paths, 1, Len(paths) - 1)), Doc(Branch(paths[Len(paths)].steps)), "")

CanBuild(paths) == paths # <<>> /\ \A i \in 1..Len(paths) : Buildable(paths[i])

(* the document with the paths created and the value at each of them *)
InjectAt(doc, dead, paths, value) ==
  LET m == IF HasAlias(doc) THEN MergeIn(<<doc>> \o dead, 1, doc.id, Scaffold(paths), "")[1] ELSE Merge(doc, Scaffold(paths), "")
      d == Number(m, <<1>>) IN
  FoldLeft(LAMBDA t, id : IF HasId(t, id) THEN Put(t, id, Replace(ById(t, id), value)) ELSE t, d, FindIds(paths, d))
=============================================================================
