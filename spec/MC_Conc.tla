------------------------------ MODULE MC_Conc ------------------------------
(* Three files in every combination of what can happen to a file, and every order in which the steps on them can happen.
   Whatever the order, the same comes out of every file, and the run ends with the same exit status (C11, C12). *)
EXTENDS Base

VARIABLE log \* the steps so far, as the hooks in yot name them

all == <<vars, log>>

S(v) == Obj(<<<<"s", Str(v)>>>>)
At1(name) == Path(<<Child(name)>>)
Add(v) == Ov("combine", <<At1("s")>>, Str(v))
Commented == LET o == S("x") IN [o EXCEPT !.c[2].l = "# why"]

(* what can happen to a file: [documents, its overlays] *)
Kinds == <<
  [docs |-> <<Doc(S("p"))>>, ovs |-> <<Add("q")>>],                                       \* one step
  [docs |-> <<Doc(S("p")), Doc(S("r"))>>, ovs |-> <<Add("q")>>],                          \* a step on each of two documents
  [docs |-> <<Doc(S("p"))>>, ovs |-> <<>>],                                               \* nothing to do
  [docs |-> <<Doc(Obj(<<<<"s", Map(<<>>)>>>>))>>, ovs |-> <<Add("q")>>],                  \* fails
  [docs |-> <<Doc(S("p")), Doc(Obj(<<<<"s", List(<<>>)>>>>))>>, ovs |-> <<Add("q")>>],    \* fails at the second document
  [docs |-> <<Doc(Commented)>>, ovs |-> <<Ov("replace", <<At1("s")>>, NoNode)>>],         \* cannot be written
  [docs |-> <<Doc(S("p"))>>, ovs |-> <<Ov("delete", <<Path(<<>>)>>, NoNode)>>] >>          \* nothing is left

NK == Len(Kinds)
Lens == <<NK, NK, NK>>
Total == Product(Lens)
Name(k) == <<"a.yaml", "b.yaml", "c.yaml">>[k]

Scenario(i) ==
  LET x == Digits0(i, Lens) IN
  WithInstr([Nothing EXCEPT !.id = "k" \o Num(i), !.fs = [k \in 1..3 |-> File("/R/w/" \o Name(k), Kinds[x[k]].docs)]],
            <<>>, [k \in 1..3 |-> Entry(Name(k), "", Kinds[x[k]].ovs, <<>>)])

Init == log = <<>> /\ \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i)>>

(* the step that fails is the last one that is told: it never ends *)
Gone == exit = 1 \/ \E f \in 1..Len(files) : files[f].st = "failed"
Say(step, f) ==
  log' = IF Gone THEN log ELSE Append(log, step \o " " \o files[f].in)

Logged ==
  \/ (Grow(Make) \/ Start \/ Finish) /\ UNCHANGED log
  \/ \E f \in 1..Len(files) : (Step(f) /\ Say("apply", f)) \/ (Emit(f) /\ Say("emit", f)) \/ (Drop(f) /\ UNCHANGED log)
  \/ Write /\ Say("write", Head(chan))

(* every order of the steps is a behaviour of its own, to be replayed *)
Told == Tell([scenario |-> [sc EXCEPT !.qt = <<>>], outcome |-> Outcome, order |-> log]) /\ UNCHANGED log
Spec == Init /\ [][Logged \/ Told]_all

(* without their order: all that can be reached *)
Unlogged == (Grow(Make) \/ Next \/ (phase = "done" /\ UNCHANGED vars)) /\ UNCHANGED log
PlainSpec == Init /\ [][Unlogged]_all

(* a run ends: it cannot stop before that (no deadlock), and every step leaves less to do *)
Todo == FoldLeft(LAMBDA a, f : a + Len(f.q) + (IF f.st = "run" THEN 3 ELSE 0), 0, files) + 2 * Len(chan) + (IF exit = -1 THEN 1 ELSE 0)
Ends == [][phase = "run" => phase' = "done" \/ Todo' < Todo]_vars

(* C11: what comes out of a file is what its overlays alone make of it, one document after the other *)
Alone(f) ==
  LET x == Digits0(atoi(From(sc.id, 2)), Lens) k == Kinds[x[f]]
      rs == MapSeq(k.docs, LAMBDA d : ApplyAll(k.ovs, d, "ignore"))
  IN [ok |-> \A j \in 1..Len(rs) : rs[j].ok, docs |-> SelectSeq(MapSeq(rs, LAMBDA r : r.doc), LAMBDA d : d.c # <<>>)]

Written == {out[i].f : i \in 1..Len(out)}
SameAsAlone ==
  phase \in {"run", "done"} => \A i \in 1..Len(out) : LET a == Alone(out[i].f) IN a.ok /\ MapSeq(out[i].docs, Data) = MapSeq(a.docs, Data)

(* C12: the exit status tells whether everything came out, and it does not depend on the order *)
Fine(f) == LET a == Alone(f) IN a.ok /\ \A j \in 1..Len(a.docs) : Writable(a.docs[j], 0)
Status ==
  phase = "done" =>
    /\ (exit = 0 <=> \A f \in 1..3 : Fine(f))
    /\ exit = 0 => Written = {f \in 1..3 : Alone(f).docs # <<>>}

(* a file that failed never comes out *)
Never == phase \in {"run", "done"} => \A f \in Written : Fine(f)
=============================================================================
