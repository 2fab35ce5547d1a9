------------------------------- MODULE Base -------------------------------
(* Building scenarios inside the specification. The modules MC_* enumerate scenarios with it: TLC checks on each of them
   what the properties say, and prints it with its outcome for the harness to replay it with yot. *)
EXTENDS Report, IOUtils

(* ---- paths and their texts ---- *)
Path(steps) == [root |-> TRUE, steps |-> steps]
AtPath(steps) == [root |-> FALSE, steps |-> steps]
Child(n) == [op |-> "child", name |-> n]
Names(ns) == [op |-> "names", names |-> ns]
Wild == [op |-> "wild"]
Ix(i) == [w |-> "i", i |-> i]
AllIx == [w |-> "*"] \* beside others: alone in the brackets it is Wild
Slice(f, t, s) == \* lists: empty or with one number
  [w |-> ":", hf |-> f # <<>>, from |-> IF f = <<>> THEN 0 ELSE f[1], ht |-> t # <<>>, to |-> IF t = <<>> THEN 0 ELSE t[1],
   hs |-> s # <<>>, step |-> IF s = <<>> THEN 1 ELSE s[1]]
Idx(subs) == [op |-> "idx", subs |-> subs]
At(i) == Idx(<<Ix(i)>>)
Desc(n) == [op |-> "desc", name |-> n]
DescWild == [op |-> "descwild"]
DescThen == [op |-> "descthen"]
Prop(n) == [op |-> "prop", name |-> n]
Props(ns) == [op |-> "props", names |-> ns]
WildProp == [op |-> "wildprop"]
Where(e) == [op |-> "filter", e |-> e]
DescWhere(e) == [op |-> "rfilter", e |-> e]

Num(i) == ToString(i)
Bracket(ns) == "[" \o Join(MapSeq(ns, LAMBDA n : "'" \o n \o "'"), ",") \o "]"
SubText(s) ==
  CASE s.w = "i" -> Num(s.i) [] s.w = "*" -> "*"
    [] s.w = ":" -> (IF s.hf THEN Num(s.from) ELSE "") \o ":" \o (IF s.ht THEN Num(s.to) ELSE "") \o (IF s.hs THEN ":" \o Num(s.step) ELSE "")

RECURSIVE StepText(_)
RECURSIVE ExprText(_)
StepsText(ss) == Join(MapSeq(ss, StepText), "")
PathText(p) == (IF p.root THEN "$" ELSE "") \o StepsText(p.steps)
OperandText(o) ==
  CASE o.o = "lit" -> IF o.y = "str" THEN "'" \o o.v \o "'" ELSE o.v
    [] o.o = "at" -> "@" \o StepsText(o.p.steps)
    [] o.o = "root" -> "$" \o StepsText(o.p.steps)
StepText(s) ==
  CASE s.op = "child" -> "." \o s.name
    [] s.op = "names" -> Bracket(s.names)
    [] s.op = "wild" -> ".*"
    [] s.op = "idx" -> "[" \o Join(MapSeq(s.subs, SubText), ",") \o "]"
    [] s.op = "desc" -> ".." \o s.name
    [] s.op = "descwild" -> "..*"
    [] s.op = "descthen" -> ".."
    [] s.op \in {"filter", "rfilter"} -> "[?(" \o ExprText(s.e) \o ")]"
    [] s.op = "prop" -> "." \o s.name \o "~"
    [] s.op = "props" -> Bracket(s.names) \o "~"
    [] s.op = "wildprop" -> "[*]~"
ExprText(e) ==
  CASE e.f \in {"true", "false"} -> e.f
    [] e.f = "exists" -> (IF e.o = "at" THEN "@" ELSE "$") \o StepsText(e.p.steps)
    [] e.f = "cmp" -> OperandText(e.a) \o e.op \o OperandText(e.b)
    [] e.f = "re" -> OperandText(e.a) \o "=~/" \o (IF e.pre THEN "^" ELSE "") \o e.v \o (IF e.post THEN "$" ELSE "") \o "/"
    [] e.f = "not" -> "!(" \o ExprText(e.a) \o ")"
    [] e.f \in {"and", "or"} -> "(" \o ExprText(e.a) \o (IF e.f = "and" THEN ") && (" ELSE ") || (") \o ExprText(e.b) \o ")"

(* ---- trees ---- *)
IntV(v) == Scalar("!!int", v)
BoolV(v) == Scalar("!!bool", v)
FloatV(v) == Scalar("!!float", v)
Null == Scalar("!!null", "null")
Obj(kvs) == Map(Flat(kvs, LAMBDA p : <<Str(p[1]), p[2]>>)) \* kvs: pairs of a name and a value

(* ---- overlays and instructions ---- *)
Ov(action, qs, value) ==
  [name |-> "", qs |-> qs, value |-> value, action |-> action, dq |-> <<>>, om |-> "default", ip |-> <<>>, di |-> [has |-> FALSE, is |-> <<>>]]

Texts(ps) == List(MapSeq(ps, LAMBDA p : Str(PathText(p))))
If(b, kv) == IF b THEN <<kv>> ELSE <<>>

OvTree(ov) ==
  Obj(<<<<"query", Texts(ov.qs)>>, <<"action", Str(ov.action)>>>>
      \o If(ov.value.k # "0", <<"value", ov.value>>)
      \o If(ov.dq # <<>>, <<"documentQuery", List(MapSeq(ov.dq, LAMBDA g :
              Obj(<<<<"conditions", List(MapSeq(g, LAMBDA c :
                Obj(<<<<"query", Texts(c.qs)>>>> \o If(c.value.k # "0", <<"value", c.value>>))))>>>>)))>>)
      \o If(ov.di.has, <<"documentIndex", List(MapSeq(ov.di.is, LAMBDA i : IntV(Num(i))))>>)
      \o If(ov.om # "default" \/ ov.ip # <<>>,
            <<"onMissing", Obj(If(ov.om # "default", <<"action", Str(ov.om)>>) \o If(ov.ip # <<>>, <<"injectPath", Texts(ov.ip)>>))>>))

(* a file of the instructions: [path, out, ovs, docs], docs: entries [path, ovs] *)
FileTree(f) ==
  Obj(<<<<"path", Str(f.path)>>>> \o If(f.out # "", <<"outputPath", Str(f.out)>>)
      \o If(f.ovs # <<>>, <<"overlays", List(MapSeq(f.ovs, OvTree))>>)
      \o If(f.docs # <<>>, <<"documents", List(MapSeq(f.docs, LAMBDA d :
              Obj(<<<<"path", IntV(Num(d.path))>>, <<"overlays", List(MapSeq(d.ovs, OvTree))>>>>)))>>))

InstrTree(common, fs) ==
  Doc(Obj(If(common # <<>>, <<"commonOverlays", List(MapSeq(common, OvTree))>>) \o If(fs # <<>>, <<"yamlFiles", List(MapSeq(fs, FileTree))>>)))

PathsOf(ov) == ov.qs \o ov.ip \o Flat(ov.dq, LAMBDA g : Flat(g, LAMBDA c : c.qs))
Known(ovs) ==
  LET S == UNION {{PathsOf(ovs[i])[j] : j \in 1..Len(PathsOf(ovs[i]))} : i \in 1..Len(ovs)} IN
  MapSeq(SetToSeq(S), LAMBDA p : [t |-> PathText(p), ok |-> TRUE, p |-> p])

(* ---- scenarios ---- *)
Nothing ==
  [cmd |-> "run", asked |-> "", full |-> FALSE, id |-> "", cwd |-> "/R/w", cli |-> TRUE, instr |-> [has |-> FALSE, bad |-> FALSE, docs |-> <<>>, dir |-> "/R/w"],
   qt |-> <<>>, fs |-> <<>>, dirs |-> <<"/R/w", "/R/home">>, stdin |-> [docs |-> <<>>, bad |-> FALSE], adpath |-> "",
   adov |-> [has |-> FALSE, qs |-> <<>>, action |-> "merge", value |-> NoNode], flags |-> <<>>, env |-> <<>>, configs |-> <<>>]

File(path, docs) == [path |-> path, docs |-> docs, bad |-> FALSE]
Entry(path, place, ovs, docs) == [path |-> path, out |-> place, ovs |-> ovs, docs |-> docs]

WithInstr(s, common, es) ==
  LET ovs == common \o Flat(es, LAMBDA e : e.ovs \o Flat(e.docs, LAMBDA d : d.ovs)) IN
  [s EXCEPT !.instr = [has |-> TRUE, bad |-> FALSE, docs |-> <<InstrTree(common, es)>>, dir |-> "/R/w"], !.qt = Known(ovs)]

(* many documents in one file, each with overlays of its own *)
Batch(id, docs, ovs) ==
  LET s == [Nothing EXCEPT !.id = id, !.fs = <<File("/R/w/f.yaml", docs)>>] IN
  WithInstr(s, <<>>, <<Entry("f.yaml", "", <<>>, TLCEval([i \in 1..Len(docs) |-> [path |-> i - 1, ovs |-> ovs[i]]]))>>)

(* ---- enumeration ---- *)
(* the i-th (from 0) element of the product of lists with these lengths, as positions from 1 *)
RECURSIVE Digits0(_, _)
Digits0(i, lens) == IF lens = <<>> THEN <<>> ELSE <<(i % Head(lens)) + 1>> \o Digits0(i \div Head(lens), Tail(lens))
Product(lens) == FoldLeft(LAMBDA a, x : a * x, 1, lens)

(* the part of the numbers 0..n - 1 that a run is asked for: one of k following ones, not always the same one *)
Part(n) ==
  LET k == atoi(IOEnv.PARTS) r == atoi(IOEnv.PART) IN
  {i \in 0..(n - 1) : (i + i \div k + i \div (k * k)) % k = r % k}

(* the cases of batch b, g cases each, of n *)
Batches(n, g) == (n + g - 1) \div g
InBatch(n, g, b) == TLCEval([j \in 1..Smaller(g, n - b * g) |-> b * g + j - 1])

(* overlays one after the other on a document *)
ApplyAll(ovs, doc, dflt) ==
  FoldLeft(LAMBDA r, ov : IF r.ok THEN Apply(ov, r.doc, r.dead, dflt) ELSE r, Result(doc, <<>>, ""), ovs)

(* Cases with a document D and overlays O each, as scenarios: those that succeed together in one run, every other one in a
   run of its own, since one that fails ends the run. flags: settings of the run, dflt what they make of missing nodes. *)
Cases(id, is, D(_), O(_), flags, dflt) ==
  LET fine == TLCEval([j \in 1..Len(is) |-> ApplyAll(O(is[j]), D(is[j]), dflt).ok])
      Run(name, js) ==
        [Batch(name, MapSeq(js, LAMBDA j : D(is[j])), MapSeq(js, LAMBDA j : O(is[j]))) EXCEPT !.flags = flags]
        @@ [cases |-> MapSeq(js, LAMBDA j : is[j])]
      all == [j \in 1..Len(is) |-> j]
      good == SelectSeq(all, LAMBDA j : fine[j])
  IN (IF good = <<>> THEN <<>> ELSE <<Run(id, good)>>)
     \o MapSeq(SelectSeq(all, LAMBDA j : ~fine[j]), LAMBDA j : Run(id \o "-" \o Num(j), <<j>>))

(* scenarios are made in a step of their own, which TLC can do for several at a time: first there is only a seed *)
Seed(x) == sc = x /\ phase = "seed" /\ files = <<>> /\ chan = <<>> /\ out = <<>> /\ exit = -1 /\ taken = FALSE
Grow(F(_)) ==
  /\ phase = "seed" /\ phase' = "start" /\ UNCHANGED <<files, chan, out, exit, taken>>
  /\ LET ss == TLCEval(F(sc)) IN \E i \in 1..Len(ss) : sc' = ss[i]

RECURSIVE Brief(_)
Brief(x) ==
  CASE x.k = "v" -> x.v [] x.k = "0" -> "(none)"
    [] x.k = "m" -> "{" \o Join([i \in 1..(Len(x.c) \div 2) |-> Brief(x.c[2 * i - 1]) \o ": " \o Brief(x.c[2 * i])], ", ") \o "}"
    [] x.k = "s" -> "[" \o Join(MapSeq(x.c, Brief), ", ") \o "]"
    [] OTHER -> Join(MapSeq(x.c, Brief), "")

(* P(number of the case, document before, document after) for all the cases of a run that succeeded *)
AllCases(P(_, _, _)) ==
  phase = "done" /\ exit = 0 =>
    \A j \in 1..Len(files[1].docs) : 
      \/ P(sc.cases[j], Number(sc.fs[1].docs[j], <<1>>), files[1].docs[j].tree)
      \/ PrintT(<<"fails", sc.cases[j], Brief(sc.fs[1].docs[j]), Brief(sc.instr.docs[1].c[1].c[2].c[1].c[4].c[j]), Brief(files[1].docs[j].tree)>>) /\ FALSE

(* the same well-formedness as Trees, where it costs less *)
EndTrees == phase = "done" => Trees

Replay == Tell([scenario |-> [sc EXCEPT !.qt = <<>>], outcome |-> Outcome])
=============================================================================
