----------------------------- MODULE MC_Decode -----------------------------
(* Instructions with any one or two of their fields replaced by values of every shape. What is acceptable where is
   written down here as a table of kinds of fields (C23). *)
EXTENDS Base

(* [name, kind] of every place *)
Places0 == <<
  <<"root", "whole">>, <<"commonOverlays", "list">>, <<"common", "item">>, <<"yamlFiles", "list">>, <<"file", "item">>,
  <<"fname", "text">>, <<"fpath", "text">>, <<"outputPath", "text">>, <<"overlays", "list">>, <<"overlay", "item">>,
  <<"oname", "text">>, <<"query", "paths">>, <<"onequery", "path">>, <<"value", "any">>, <<"action", "action">>,
  <<"documentQuery", "list">>, <<"group", "item">>, <<"conditions", "list">>, <<"condition", "item">>, <<"cquery", "paths">>,
  <<"cvalue", "any">>, <<"documentIndex", "ints">>, <<"oneindex", "int">>, <<"onMissing", "struct">>, <<"omaction", "om">>,
  <<"injectPath", "paths">>, <<"documents", "list">>, <<"document", "item">>, <<"dname", "text">>, <<"dpath", "int">>,
  <<"doverlays", "list">>, <<"unknown", "any">> >>

(* [value, kinds of fields it is acceptable for, besides "any"] *)
Scalars == {"text", "om"}
Shapes == <<
  <<Null, Scalars \cup {"whole", "list", "paths", "path", "action", "ints", "int", "struct"}>>,
  <<Str(""), Scalars>>,
  <<Str("f.yaml"), Scalars \cup {"paths", "path"}>>,
  <<Str("MERGE"), Scalars \cup {"paths", "path", "action"}>>,
  <<Str("Inject"), Scalars \cup {"paths", "path"}>>,
  <<Str("combine "), Scalars>>,
  <<Str("$.a"), Scalars \cup {"paths", "path"}>>,
  <<Str("["), Scalars>>,
  <<IntV("1"), Scalars \cup {"paths", "path", "int"}>>,
  <<Str("1"), Scalars \cup {"paths", "path"}>>,
  <<BoolV("true"), Scalars \cup {"paths", "path"}>>,
  <<List(<<>>), {"list", "paths", "ints"}>>,
  <<List(<<Null>>), {"paths", "ints"}>>,
  <<List(<<IntV("1"), IntV("0")>>), {"paths", "ints"}>>,
  <<List(<<Str("$.a"), Null, Str("$.k")>>), {"paths"}>>,
  <<List(<<Str("$.a"), Str("[")>>), {}>>,
  <<List(<<List(<<>>)>>), {}>>,
  <<List(<<Obj(<<>>)>>), {"list"}>>,
  <<Obj(<<>>), {"whole", "item", "struct"}>>,
  <<Obj(<<<<"zz", IntV("1")>>>>), {"whole", "item", "struct"}>>,
  <<Map(<<IntV("1"), Str("x")>>), {"whole", "item", "struct"}>>,
  <<Obj(<<<<"zz", Str("x")>>, <<"zz", Str("y")>>>>), {}>>,
  <<Map(<<List(<<IntV("1")>>), Str("x")>>), {}>> >>

Lens == <<Len(Places0), Len(Shapes), Len(Places0), Len(Shapes)>>
Total == Product(Lens)

(* the changes of scenario i: pairs of a place and a shape *)
ChangesOf(i) == LET x == Digits0(i, Lens) IN IF x[1] = x[3] THEN <<<<x[1], x[2]>>>> ELSE <<<<x[1], x[2]>>, <<x[3], x[4]>>>>

(* the instructions with V(place, usual value) for every place *)
Tree1(V(_, _)) ==
  LET ov == V("overlay", Obj(<<
              <<"name", V("oname", Str("o"))>>,
              <<"query", V("query", List(<<V("onequery", Str("$.a")), Str("$.q")>>))>>,
              <<"value", V("value", IntV("5"))>>,
              <<"action", V("action", Str("replace"))>>,
              <<"documentQuery", V("documentQuery", List(<<V("group", Obj(<<
                  <<"conditions", V("conditions", List(<<V("condition", Obj(<<
                     <<"query", V("cquery", Str("$.k"))>>, <<"value", V("cvalue", IntV("7"))>>>>))>>))>>>>))>>))>>,
              <<"documentIndex", V("documentIndex", List(<<IntV("2"), V("oneindex", IntV("0"))>>))>>,
              <<"onMissing", V("onMissing", Obj(<<<<"action", V("omaction", Str("inject"))>>, <<"injectPath", V("injectPath", Str("$.q"))>>>>))>> >>))
      other(n) == Obj(<<<<"query", Str("$.k")>>, <<"value", Str(n)>>>>)
  IN V("root", Obj(<<
       <<"commonOverlays", V("commonOverlays", List(<<V("common", Obj(<<<<"query", Str("$.c")>>, <<"action", Str("delete")>>>>))>>))>>,
       <<"yamlFiles", V("yamlFiles", List(<<V("file", Obj(<<
          <<"name", V("fname", Str("n"))>>, <<"path", V("fpath", Str("f.yaml"))>>, <<"outputPath", V("outputPath", Str("o.yaml"))>>,
          <<"overlays", V("overlays", List(<<ov>>))>>,
          <<"documents", V("documents", List(<<V("document", Obj(<<<<"name", V("dname", Str("d"))>>, <<"path", V("dpath", IntV("1"))>>,
                                                                  <<"overlays", V("doverlays", List(<<other("doc")>>))>>>>))>>))>>,
          <<"more", V("unknown", Str("x"))>>>>))>>))>>>>))

With1(cs) ==
  LET V(name, usual) ==
        LET K == {k \in 1..Len(cs) : Places0[cs[k][1]][1] = name} IN
        IF K = {} THEN usual ELSE Shapes[cs[MinOf(K)][2]][1]
  IN Doc(Tree1(V))

D(k, x) == Doc(Obj(<<<<"a", Str(x)>>, <<"k", IntV(k)>>, <<"c", Str("c")>>, <<"f", Obj(<<<<"yaml", Str("y")>>>>)>>, <<"1", Str("one")>>>>))
TheDocs == <<D("7", "x"), D("8", "y"), D("7", "z")>>

Q(t, p) == [t |-> t, ok |-> TRUE, p |-> p]
Texts1 == <<
  Q("$.a", Path(<<Child("a")>>)), Q("$.k", Path(<<Child("k")>>)), Q("$.c", Path(<<Child("c")>>)), Q("$.q", Path(<<Child("q")>>)),
  Q("f.yaml", AtPath(<<Child("f"), Child("yaml")>>)), Q("MERGE", AtPath(<<Child("MERGE")>>)), Q("Inject", AtPath(<<Child("Inject")>>)),
  Q("1", AtPath(<<Child("1")>>)), Q("0", AtPath(<<Child("0")>>)),
  Q("true", AtPath(<<Child("true")>>)) >>

Scenario(i) ==
  [Nothing EXCEPT !.id = Num(i), !.fs = <<File("/R/w/f.yaml", TheDocs)>>, !.qt = Texts1,
     !.instr = [has |-> TRUE, bad |-> FALSE, docs |-> <<With1(ChangesOf(i))>>, dir |-> "/R/w"]]

Init == \E i \in Part(Total) : Seed(i)
(* the empty text is a path, to the document as such: left out *)
Make(i) ==
  IF \E k \in 1..Len(ChangesOf(i)) : LET c == ChangesOf(i)[k] IN Places0[c[1]][2] \in {"path", "paths"} /\ Shapes[c[2]][1].v = "" /\ Shapes[c[2]][1].k = "v"
  THEN <<>> ELSE <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C23 says ---- *)
(* a place that lies within another one that is replaced does not matter *)
Within == [
  root |-> {}, commonOverlays |-> {"root"}, common |-> {"commonOverlays"}, yamlFiles |-> {"root"}, file |-> {"yamlFiles"},
  fname |-> {"file"}, fpath |-> {"file"}, outputPath |-> {"file"}, overlays |-> {"file"}, overlay |-> {"overlays"},
  oname |-> {"overlay"}, query |-> {"overlay"}, onequery |-> {"query"}, value |-> {"overlay"}, action |-> {"overlay"},
  documentQuery |-> {"overlay"}, group |-> {"documentQuery"}, conditions |-> {"group"}, condition |-> {"conditions"},
  cquery |-> {"condition"}, cvalue |-> {"condition"}, documentIndex |-> {"overlay"}, oneindex |-> {"documentIndex"},
  onMissing |-> {"overlay"}, omaction |-> {"onMissing"}, injectPath |-> {"onMissing"}, documents |-> {"file"},
  document |-> {"documents"}, dname |-> {"document"}, dpath |-> {"document"}, doverlays |-> {"document"}, unknown |-> {"file"}]
RECURSIVE Around(_)
Around(p) == Within[p] \cup UNION {Around(q) : q \in Within[p]}

Those == ChangesOf(atoi(sc.id))
NameOf(c) == Places0[c[1]][1]
InForce == {k \in 1..Len(Those) : \A j \in 1..Len(Those) : NameOf(Those[j]) \notin Around(NameOf(Those[k]))}
Fits(c) == Places0[c[1]][2] = "any" \/ Places0[c[1]][2] \in Shapes[c[2]][2]
AllFit == \A k \in InForce : Fits(Those[k])

(* a text for the path of the file that is not the file's name is not found; none is the directory *)
PathFits ==
  \A k \in InForce : NameOf(Those[k]) = "fpath" =>
    LET v == Shapes[Those[k][2]][1] IN v.k = "v" => v.v \in {"f.yaml", "", "null"}

Understood0 ==
  phase = "done" =>
    /\ Read(sc).ok = AllFit
    /\ ~AllFit => exit = 1 /\ ~taken /\ out = <<>>
    /\ ~PathFits => exit = 1 /\ out = <<>>

(* leaving a field out, where that is possible, is the same as writing nothing there *)
RECURSIVE Without0(_)
Without0(n) ==
  IF n.k = "m" THEN LET ks == SelectSeq([i \in 1..(Len(n.c) \div 2) |-> i], LAMBDA i : ~IsNull(n.c[2 * i]) \/ n.c[2 * i - 1].v \in {"value", "zz"}) IN
                    [n EXCEPT !.c = Flat(ks, LAMBDA i : <<n.c[2 * i - 1], Without0(n.c[2 * i])>>)]
  ELSE IF n.k \in {"s", "d"} THEN [n EXCEPT !.c = MapSeq(n.c, Without0)]
  ELSE n
EmptyIsNone ==
  phase = "done" =>
    LET r == Read(sc) IN
    /\ r = Instructions(sc.qt, <<Without0(sc.instr.docs[1])>>)
    /\ ~r.ok \/ (\A k \in InForce : NameOf(Those[k]) # "fname" /\ NameOf(Those[k]) # "unknown" /\ NameOf(Those[k]) # "dname")
       \/ Len(Those) > 1 \/ r = Instructions(sc.qt, <<With1(<<>>)>>)
=============================================================================
