----------------------------- MODULE MC_Values -----------------------------
(* All lists of up to three values files of a small set, and instructions that print all the values, one of them, and
   whether there is another. The values that come out are defined here by what each path of them is (C18). *)
EXTENDS Base, Template

KV(a, b) == <<a, b>>
I(n) == IntV(Num(n))
(* [documents, bad] *)
F1(n) == [docs |-> <<Doc(n)>>, bad |-> FALSE]
VFiles == <<
  F1(Obj(<<>>)),
  F1(Obj(<<KV("a", I(1))>>)),
  F1(Obj(<<KV("a", Str("x"))>>)),
  F1(Obj(<<KV("a", Null)>>)),
  F1(Obj(<<KV("a", Obj(<<KV("d", I(1)), KV("c", BoolV("true"))>>))>>)),
  F1(Obj(<<KV("a", Obj(<<KV("d", Str("y")), KV("e", Obj(<<KV("f", I(0))>>))>>)), KV("b", BoolV("false"))>>)),
  F1(Obj(<<KV("a", Obj(<<KV("e", Obj(<<KV("f", Null), KV("g", Str(""))>>))>>)), KV("b", I(3))>>)),
  F1(Obj(<<KV("b", List(<<I(1), Obj(<<KV("z", I(1))>>)>>))>>)),
  F1(Obj(<<KV("b", List(<<I(2)>>)), KV("a", List(<<>>))>>)),
  F1(Obj(<<KV("b", Obj(<<>>))>>)),
  [docs |-> <<Doc(Obj(<<KV("b", Str("first"))>>)), Doc(Obj(<<KV("a", Str("second"))>>))>>, bad |-> FALSE],
  F1(Null), F1(List(<<I(5)>>)), F1(Str("text")),
  [docs |-> <<>>, bad |-> FALSE], [docs |-> <<Doc(Null)>>, bad |-> TRUE] >>
NV == Len(VFiles)
Total == NV + NV * NV + NV * NV * NV
Those(i) ==
  IF i < NV THEN <<i + 1>>
  ELSE IF i < NV + NV * NV THEN Digits0(i - NV, <<NV, NV>>)
  ELSE Digits0(i - NV - NV * NV, <<NV, NV, NV>>)

(* ---- the instructions: their template and what it stands for ---- *)
NL == "\n"
TheText ==
  "yamlFiles:" \o NL \o "- path: f.yaml" \o NL \o "  overlays:" \o NL \o
  "  - query: $.all" \o NL \o "    action: replace" \o NL \o "    value: {{ toJson . }}" \o NL \o
  "  - query: $.a" \o NL \o "    value: {{ .a | default \"none\" | toString | quote }}" \o NL \o
  "  - query: $.b" \o NL \o "    {{- if .b }}" \o NL \o "    value: \"yes\"" \o NL \o "    {{- else }}" \o NL \o "    action: delete" \o NL \o "    {{- end }}" \o NL

(* as JSON has it: in the order of the names, without null as an empty text *)
RECURSIVE Sorted(_)
Sorted(n) ==
  CASE n.k = "m" -> Obj(MapSeq(SortedKeys(n), LAMBDA k : <<k, Sorted(n.c[KeyPos(n, k) + 1])>>))
    [] n.k = "s" -> List(MapSeq(n.c, Sorted))
    [] OTHER -> IF IsNil(n) THEN Null ELSE Scalar(n.t, n.v)

PathA == Path(<<Child("a")>>) PathB == Path(<<Child("b")>>) PathAll == Path(<<Child("all")>>)
Rendered(v) ==
  LET a == Eval([o |-> "dot", v |-> "", p |-> <<"a">>, fs |-> <<[f |-> "default", x |-> "none", y |-> ""], [f |-> "toString", x |-> "", y |-> ""]>>],
                [dot |-> v, root |-> v, vars |-> <<>>])
      b == Eval([o |-> "dot", v |-> "", p |-> <<"b">>, fs |-> <<>>], [dot |-> v, root |-> v, vars |-> <<>>])
  IN [ok |-> a.ok /\ b.ok,
      ovs |-> IF a.ok /\ b.ok
              THEN <<Ov("replace", <<PathAll>>, Sorted(v)), Ov("merge", <<PathA>>, a.n),
                     IF Truthy(b.n) THEN Ov("merge", <<PathB>>, Str("yes")) ELSE Ov("delete", <<PathB>>, NoNode)>>
              ELSE <<>>]

Input == Doc(Obj(<<KV("all", Str("?")), KV("a", Str("?")), KV("b", Str("?"))>>))
Scenario(i) ==
  LET fs == MapSeq(Those(i), LAMBDA k : VFiles[k])
      v == Values(fs)
      r == IF v.ok THEN Rendered(v.n) ELSE [ok |-> FALSE, ovs |-> <<>>]
      s == [Nothing EXCEPT !.id = Num(i), !.fs = <<File("/R/w/f.yaml", <<Input>>)>>]
  IN [values |-> fs, template |-> TheText] @@ [WithInstr(s, <<>>, <<Entry("f.yaml", "", r.ovs, <<>>)>>) EXCEPT !.instr.bad = ~r.ok]

Init == \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C18 says ---- *)
At0(n, name) == IF n.k # "m" THEN NoNode ELSE LET p == KeyPos(n, name) IN IF p = 0 THEN NoNode ELSE n.c[p + 1]
AllNames == {"a", "b", "c", "d", "e", "f", "g", "z"}
Last0(xs) == LET ys == SelectSeq(xs, LAMBDA x : x.k # "0") IN IF ys = <<>> THEN NoNode ELSE ys[Len(ys)]

(* v is what the values xs, one after the other, stand for together: the last one, unless that is a map or list; then all
   the maps or lists there have been since there was something else, together *)
Since(xs, k) ==
  LET ys == SelectSeq(xs, LAMBDA x : x.k # "0")
      j == CHOOSE j \in 0..Len(ys) : (j = 0 \/ ys[j].k # k) /\ \A m \in (j + 1)..Len(ys) : ys[m].k = k
  IN SubSeq(ys, j + 1, Len(ys))
RECURSIVE StandsFor(_, _)
StandsFor(v, xs) ==
  LET last == Last0(xs) IN
  CASE last.k = "0" -> v.k = "0"
    [] last.k = "m" -> LET ms == Since(xs, "m") IN
         v.k = "m" /\ \A name \in AllNames : StandsFor(At0(v, name), MapSeq(ms, LAMBDA m : At0(m, name)))
    [] last.k = "s" -> v.k = "s" /\ Data(v) = Data(List(Flat(Since(xs, "s"), LAMBDA s : s.c)))
    [] OTHER -> v.k = "v" /\ Meaning(v) = Meaning(last)

Bad(f) == f.bad \/ f.docs = <<>>
Merged ==
  phase = "done" =>
    IF \E k \in 1..Len(sc.values) : Bad(sc.values[k]) THEN exit = 1 /\ ~taken /\ out = <<>>
    ELSE LET roots == MapSeq(sc.values, LAMBDA f : f.docs[1].c[1])
             last == Last0(roots)
         IN \* the instructions ask for the entries of the values, which only a map or nothing has
            /\ (exit = 0) = (last.k = "m" \/ IsNil(last))
            /\ exit = 0 =>
                 LET root == out[1].docs[1].c[1] IN
                 /\ StandsFor(At0(root, "all"), roots)
                 /\ (At0(root, "b").k = "0") = (last.k # "m" \/ ~Truthy(LET b == At0(At0(root, "all"), "b") IN IF b.k = "0" THEN Nil ELSE b))
=============================================================================
