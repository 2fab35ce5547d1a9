----------------------------- MODULE MC_AdHoc -----------------------------
(* Every path and overlay on the command line, alone and beside an instructions file. A run is compared with the run of
   an instructions file in which they are written down: the path as the last entry, the overlay as the last common one (C24). *)
EXTENDS Base

D0(x) == Doc(Obj(<<<<"a", Str(x)>>, <<"l", List(<<IntV("1"), Obj(<<<<"a", Str("in")>>>>)>>)>>>>))
D1 == Doc(List(<<Str("one"), Str("two")>>))
Files0 == <<File("/R/w/f.yaml", <<D0("f0"), D1, D0("f2")>>), File("/R/w/d/g.yaml", <<D0("g")>>), File("/R/w/d/e/h.yml", <<D0("h")>>),
            File("/R/w/i/f.yaml", <<D0("if")>>), File("/R/w/i/d/g.yaml", <<D0("ig")>>)>>
In0 == [docs |-> <<D0("s0"), D0("s1")>>, bad |-> FALSE]

Ps == <<"", "f.yaml", "d", "./d/../f.yaml", "-", "/R/w/f.yaml", "no.yaml", "d/g.yaml">>
A1 == Path(<<Child("a")>>)
Qs == << <<>>, <<A1>>, <<A1, Path(<<Child("l"), At(-1)>>)>>, <<Path(<<DescWild>>)>>, <<Path(<<Child("new"), Child("er")>>)>>, <<AtPath(<<Child("l")>>), AtPath(<<Desc("a")>>)>> >>
Acts == <<"", "merge", "Replace", "delete", "COMBINE">>
Vs == <<NoNode, Str("v"), Obj(<<<<"k", Str("v")>>>>), List(<<BoolV("true")>>)>>
Other == Ov("merge", <<A1, Path(<<Child("n")>>)>>, Str("other"))
(* instructions: [common overlays, files] *)
Is == <<
  [has |-> FALSE, c |-> <<>>, fs |-> <<>>, dir |-> ""],
  [has |-> TRUE, c |-> <<Other>>, fs |-> <<>>, dir |-> "/R/w"],
  [has |-> TRUE, c |-> <<Other>>, fs |-> <<Entry("d/g.yaml", "o.yaml", <<Ov("delete", <<Path(<<Child("l"), At(0)>>)>>, NoNode)>>, <<>>)>>, dir |-> "/R/w"],
  [has |-> TRUE, c |-> <<>>, fs |-> <<Entry("f.yaml", "", <<Ov("merge", <<A1>>, Str("file"))>>, <<[path |-> 0, ovs |-> <<Ov("combine", <<A1>>, Str("+"))>>]>>)>>, dir |-> "/R/w/i"] >>
Flags0 == << <<>>, <<[n |-> "defaultOnMissingAction", v |-> "inject"]>>, <<[n |-> "stdout", v |-> "true"]>> >>

Lens == <<Len(Ps), Len(Qs), Len(Acts), Len(Vs), Len(Is), Len(Flags0)>>
Total == Product(Lens)
X(i) == Digits0(i, Lens)

Scenario(i) ==
  LET x == X(i) is == Is[x[5]] qs == Qs[x[2]]
      s == [Nothing EXCEPT !.id = Num(i), !.fs = Files0, !.stdin = IF Ps[x[1]] = "-" THEN In0 ELSE @, !.flags = Flags0[x[6]]]
      t == IF is.has THEN [WithInstr(s, is.c, is.fs) EXCEPT !.instr.dir = is.dir] ELSE s
  IN [t EXCEPT !.adpath = Ps[x[1]],
        !.adov = [has |-> qs # <<>>, qs |-> qs, action |-> IF Acts[x[3]] = "" THEN "merge" ELSE Lower(Acts[x[3]]), value |-> Vs[x[4]],
                  texts |-> MapSeq(qs, PathText), given |-> <<Acts[x[3]]>>]]

Init == \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C24 says ---- *)
Equal0 ==
  LET x == X(atoi(sc.id)) is == Is[x[5]]
      ov == IF Qs[x[2]] = <<>> THEN <<>> ELSE <<Ov(IF Acts[x[3]] = "" THEN "merge" ELSE Acts[x[3]], Qs[x[2]], Vs[x[4]])>>
      e == IF Ps[x[1]] = "" THEN <<>> ELSE <<Entry(Ps[x[1]], IF Ps[x[1]] = "-" THEN "stdin.yaml" ELSE "", <<>>, <<>>)>>
  IN [WithInstr([sc EXCEPT !.adpath = "", !.adov.has = FALSE], is.c \o ov, is.fs \o e) EXCEPT !.instr.dir = IF is.has THEN is.dir ELSE "/R/w"]

RECURSIVE Finished0(_, _)
Finished0(q, docs) ==
  IF q = <<>> THEN [ok |-> TRUE, docs |-> docs]
  ELSE LET w == Head(q) r == Apply(w.ov, docs[w.d].tree, docs[w.d].dead, OnMissingDefault(sc)) IN
       IF ~r.ok THEN [ok |-> FALSE, docs |-> docs]
       ELSE Finished0(Tail(q), [docs EXCEPT ![w.d] = [tree |-> r.doc, dead |-> r.dead]])

(* by hand: the files of the equivalent run, each complete or not *)
ByHand == LET s == Equal0 p == ThePlan(s) IN
  IF ~p.ok THEN <<>>
  ELSE LET c == Common(s) IN
       TLCEval([i \in 1..Len(p.v) |-> LET f == FileOf(s, c, p.v[i]) IN [in |-> f.in, place |-> f.place, r |-> Finished0(f.q, f.docs)]])

(* the path on the command line is seen from where yot runs, without instructions, and from the instructions otherwise *)
Same ==
  phase = "done" =>
    LET b == TLCEval(ByHand) s == Equal0 IN
         /\ taken = ThePlan(s).ok
         /\ Len(files) = Len(b)
         /\ \A i \in 1..Len(b) :
              /\ (IF b[i].in = "-" THEN files[i].in = "-" ELSE From0(files[i].in, sc.cwd) = b[i].in) /\ files[i].place = b[i].place
              /\ IF files[i].st = "run" THEN exit = 1 ELSE (files[i].st = "emitted") = b[i].r.ok
              /\ files[i].st = "emitted" => MapSeq(files[i].docs, LAMBDA d : Data(d.tree)) = MapSeq(b[i].r.docs, LAMBDA d : Data(d.tree))

(* every document of what the path stands for is written once, whatever the overlay does *)
Stdin0 ==
  phase = "done" /\ exit = 0 /\ sc.adpath = "-" =>
    \E i \in 1..Len(out) : out[i].in = "-" /\ out[i].place = "stdin.yaml" /\ Len(out[i].docs) <= 2
=============================================================================
