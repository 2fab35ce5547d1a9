------------------------------ MODULE Decode ------------------------------
(* From the YAML tree of an instructions file to instructions, or to its rejection.

   qt lists what is known about path texts: [t |-> text, ok |-> whether it is a path, p |-> the path].
   The result is [ok, v] with v = [common, files]; a file is [path, out, ovs, docs], an entry of docs [path, ovs]. *)
EXTENDS Overlay

Yes(v) == [ok |-> TRUE, v |-> v]
No == [ok |-> FALSE, v |-> <<>>]

IsNull(n) == n.k = "0" \/ (n.k = "v" /\ n.t = "!!null")

Field(n, name) == LET p == KeyPos(n, name) IN IF p = 0 THEN NoNode ELSE n.c[p + 1]

(* a map that can be read as a structure *)
Structure(n) ==
  /\ n.k = "m"
  /\ \A i \in Keys(n) : n.c[i].k = "v"
  /\ \A i, j \in Keys(n) : i # j => n.c[i].v # n.c[j].v

AsText(n) == IF IsNull(n) THEN Yes("") ELSE IF n.k = "v" THEN Yes(n.v) ELSE No
AsInt(n) == IF IsNull(n) THEN Yes(0) ELSE IF n.k = "v" /\ n.t = "!!int" THEN Yes(ToInt(n.v)) ELSE No

(* a list: nulls "drop" or "reject"; nothing where there is no list *)
ListOf(n, D(_), nulls) ==
  IF IsNull(n) THEN Yes(<<>>)
  ELSE IF n.k # "s" THEN No
  ELSE LET items == IF nulls = "drop" THEN SelectSeq(n.c, LAMBDA x : ~IsNull(x)) ELSE n.c
           ds == TLCEval([i \in 1..Len(items) |-> IF IsNull(items[i]) THEN No ELSE D(items[i])])
       IN IF \A i \in 1..Len(ds) : ds[i].ok THEN Yes(TLCEval([i \in 1..Len(ds) |-> ds[i].v])) ELSE No

AsPath(qt, n) ==
  IF n.k # "v" THEN No
  ELSE LET K == {i \in 1..Len(qt) : qt[i].t = n.v} IN
       IF K = {} THEN No ELSE LET e == qt[MinOf(K)] IN IF e.ok THEN Yes(e.p) ELSE No

AsPaths(qt, n) ==
  IF IsNull(n) THEN Yes(<<>>)
  ELSE IF n.k = "v" THEN LET p == AsPath(qt, n) IN IF p.ok THEN Yes(<<p.v>>) ELSE No
  ELSE ListOf(n, LAMBDA x : AsPath(qt, x), "drop")

AsAction(n) ==
  IF IsNull(n) THEN Yes("merge")
  ELSE IF n.k # "v" THEN No
  ELSE IF Lower(n.v) \in {"merge", "replace", "delete", "combine"} THEN Yes(Lower(n.v)) ELSE No

AsOnMissing(n) ==
  IF IsNull(n) THEN Yes("default")
  ELSE IF n.k # "v" THEN No
  ELSE IF Lower(n.v) \in {"ignore", "inject"} THEN Yes(Lower(n.v)) ELSE Yes("default")

AsCondition(qt, n) ==
  IF ~Structure(n) THEN No
  ELSE LET q == AsPaths(qt, Field(n, "query")) IN
       IF q.ok THEN Yes([qs |-> q.v, value |-> Field(n, "value")]) ELSE No

AsGroup(qt, n) ==
  IF ~Structure(n) THEN No ELSE ListOf(Field(n, "conditions"), LAMBDA x : AsCondition(qt, x), "reject")

AsOverlay(qt, n) ==
  IF ~Structure(n) THEN No
  ELSE LET name == AsText(Field(n, "name"))
           qs == AsPaths(qt, Field(n, "query"))
           act == AsAction(Field(n, "action"))
           dq == ListOf(Field(n, "documentQuery"), LAMBDA x : AsGroup(qt, x), "reject")
           di == ListOf(Field(n, "documentIndex"), AsInt, "drop")
           om == Field(n, "onMissing")
           omOk == IsNull(om) \/ Structure(om)
           oma == IF omOk /\ ~IsNull(om) THEN AsOnMissing(Field(om, "action")) ELSE Yes("default")
           ip == IF omOk /\ ~IsNull(om) THEN AsPaths(qt, Field(om, "injectPath")) ELSE Yes(<<>>)
       IN IF name.ok /\ qs.ok /\ act.ok /\ dq.ok /\ di.ok /\ omOk /\ oma.ok /\ ip.ok
          THEN Yes([name |-> name.v, qs |-> qs.v, value |-> Copy(Field(n, "value")), action |-> act.v, dq |-> dq.v,
                    om |-> oma.v, ip |-> ip.v, di |-> [has |-> ~IsNull(Field(n, "documentIndex")), is |-> di.v]])
          ELSE No

AsOverlays(qt, n) == ListOf(n, LAMBDA x : AsOverlay(qt, x), "reject")

AsDocument(qt, n) ==
  IF ~Structure(n) THEN No
  ELSE LET name == AsText(Field(n, "name")) path == AsInt(Field(n, "path")) ovs == AsOverlays(qt, Field(n, "overlays"))
       IN IF name.ok /\ path.ok /\ ovs.ok THEN Yes([path |-> path.v, ovs |-> ovs.v]) ELSE No

AsFile(qt, n) ==
  IF ~Structure(n) THEN No
  ELSE LET name == AsText(Field(n, "name")) path == AsText(Field(n, "path")) out == AsText(Field(n, "outputPath"))
           ovs == AsOverlays(qt, Field(n, "overlays"))
           docs == ListOf(Field(n, "documents"), LAMBDA x : AsDocument(qt, x), "reject")
       IN IF name.ok /\ path.ok /\ out.ok /\ ovs.ok /\ docs.ok
          THEN Yes([path |-> path.v, out |-> out.v, ovs |-> ovs.v, docs |-> docs.v])
          ELSE No

NoInstructions == [common |-> <<>>, files |-> <<>>]

AsInstructions(qt, root) ==
  IF IsNull(root) THEN Yes(NoInstructions)
  ELSE IF ~Structure(root) THEN No
  ELSE LET common == AsOverlays(qt, Field(root, "commonOverlays"))
           files == ListOf(Field(root, "yamlFiles"), LAMBDA x : AsFile(qt, x), "reject")
       IN IF common.ok /\ files.ok THEN Yes([common |-> common.v, files |-> files.v]) ELSE No

(* docs: the documents of the instructions file; only the first counts *)
Instructions(qt, docs) ==
  IF docs = <<>> THEN No
  ELSE AsInstructions(qt, Resolve(docs[1].c[1], docs[1], <<>>))
=============================================================================
