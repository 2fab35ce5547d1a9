----------------------------- MODULE MC_Stream -----------------------------
(* Up to three documents of every sort in one file, emptied or not, between two files, written to files or to standard
   output, with and without log messages: what is left comes out in order, whole files that are emptied do not (C15). *)
EXTENDS Base

Sorts == <<
  Doc(Null), Doc(Obj(<<<<"a", Str("1")>>>>)), Doc(List(<<Str("x")>>)), Doc(Str("text")), Doc(Obj(<<>>)),
  [Doc(Obj(<<<<"a", Str("2")>>>>)) EXCEPT !.c[1].c[1].h = "# first", !.c[1].c[2].l = "# last"] >>
(* documents with numbers of sorts, up to three *)
RECURSIVE Lists0(_)
Lists0(n) == IF n = 0 THEN << <<>> >> ELSE Flat(Lists0(n - 1), LAMBDA s : [k \in 1..Len(Sorts) |-> s \o <<k>>])
Middle == Lists0(0) \o Lists0(1) \o Lists0(2) \o Lists0(3)
First == << <<2>>, <<3, 2>>, <<>> >>
Third == << <<4>>, <<>> >>

Root == Path(<<>>)
On(is) == [has |-> TRUE, is |-> is]
(* [overlays, the documents (from 0) they leave nothing of; -1: all] *)
Ops == <<
  [ov |-> <<>>, gone |-> {}],
  [ov |-> <<[Ov("delete", <<Root>>, NoNode) EXCEPT !.di = On(<<0>>)]>>, gone |-> {0}],
  [ov |-> <<[Ov("delete", <<Root>>, NoNode) EXCEPT !.di = On(<<1>>)]>>, gone |-> {1}],
  [ov |-> <<[Ov("delete", <<Root>>, NoNode) EXCEPT !.di = On(<<0, 2>>)]>>, gone |-> {0, 2}],
  [ov |-> <<Ov("delete", <<Root>>, NoNode)>>, gone |-> {0, 1, 2}],
  [ov |-> <<Ov("delete", <<Path(<<Wild>>)>>, NoNode)>>, gone |-> {}],
  [ov |-> <<Ov("replace", <<Root>>, NoNode)>>, gone |-> {}],
  [ov |-> <<Ov("delete", <<Root>>, NoNode), Ov("merge", <<Root>>, Str("again"))>>, gone |-> {0, 1, 2}] >>

Modes == << <<>>, <<[n |-> "stdout", v |-> "true"]>>, <<[n |-> "logLevel", v |-> "debug"]>>,
            <<[n |-> "stdout", v |-> "true"], [n |-> "logLevel", v |-> "debug"]>>,
            <<[n |-> "stdout", v |-> "true"], [n |-> "removeComments", v |-> "true"], [n |-> "outputStyle", v |-> "flow"]>> >>

Lens == <<Len(Middle), Len(Ops), Len(First), Len(Third), Len(Modes)>>
Total == Product(Lens)
X(i) == Digits0(i, Lens)
DocsOf(s) == MapSeq(s, LAMBDA k : Sorts[k])

Scenario(i) ==
  LET x == X(i)
      s == [Nothing EXCEPT !.id = Num(i), !.flags = Modes[x[5]],
              !.fs = <<File("/R/w/a.yaml", DocsOf(First[x[3]])), File("/R/w/b.yaml", DocsOf(Middle[x[1]])), File("/R/w/c.yaml", DocsOf(Third[x[4]]))>>]
  IN WithInstr(s, <<>>, <<Entry("a.yaml", "", <<>>, <<>>), Entry("b.yaml", "", Ops[x[2]].ov, <<>>), Entry("c.yaml", "", <<>>, <<>>)>>)

Init == \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C15 says ---- *)
Remaining(f) ==
  LET x == X(atoi(sc.id))
      s == CASE f = 1 -> First[x[3]] [] f = 2 -> Middle[x[1]] [] f = 3 -> Third[x[4]] IN
  IF f # 2 THEN DocsOf(s)
  ELSE LET is == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : k - 1 \notin Ops[x[2]].gone) IN MapSeq(is, LAMBDA k : Sorts[s[k]])

Stream0 ==
  phase = "done" /\ exit = 0 =>
    LET fs == SelectSeq(<<1, 2, 3>>, LAMBDA f : Remaining(f) # <<>>) IN
    /\ MapSeq(out, LAMBDA o : o.f) = fs
    /\ \A j \in 1..Len(out) : Len(out[j].docs) = Len(Remaining(out[j].f))
    /\ \A j \in 1..Len(out) : out[j].f # 2 \/ X(atoi(sc.id))[2] < 6 =>
         MapSeq(out[j].docs, Data) = MapSeq(Remaining(out[j].f), Data)

NeverFails == phase = "done" => exit = 0
=============================================================================
