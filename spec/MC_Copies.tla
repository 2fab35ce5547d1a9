----------------------------- MODULE MC_Copies -----------------------------
(* A value that one overlay puts in several places, documents and files; one of these places is changed afterwards, and the
   overlay perhaps used once more. What every place has in the end is written down by hand (C10). *)
EXTENDS Base

KV(a, b) == <<a, b>>
V1 == Obj(<<KV("k", Str("a")), KV("s", Str("t"))>>)
V2 == List(<<Str("a"), Str("b")>>)
V3 == Obj(<<KV("k", Obj(<<KV("z", Str("a"))>>)), KV("s", List(<<Str("x"), Obj(<<KV("w", Str("y"))>>)>>))>>)
V4 == Str("t")

(* [value, what is done to it: action, steps below its place, value, and what it is then] *)
Edits == <<
  <<V1, "merge", <<>>, Obj(<<KV("k", Str("n"))>>), Obj(<<KV("k", Str("n")), KV("s", Str("t"))>>)>>,
  <<V1, "merge", <<>>, Obj(<<KV("new", V2)>>), Obj(<<KV("k", Str("a")), KV("s", Str("t")), KV("new", V2)>>)>>,
  <<V1, "delete", <<Child("k")>>, NoNode, Obj(<<KV("s", Str("t"))>>)>>,
  <<V1, "delete", <<Wild>>, NoNode, Obj(<<>>)>>,
  <<V1, "replace", <<Child("s")>>, V2, Obj(<<KV("k", Str("a")), KV("s", V2)>>)>>,
  <<V1, "combine", <<Child("s")>>, Str("+"), Obj(<<KV("k", Str("a")), KV("s", Str("t+"))>>)>>,
  <<V1, "replace", <<Prop("k")>>, Str("q"), Obj(<<KV("q", Str("a")), KV("s", Str("t"))>>)>>,
  <<V2, "merge", <<>>, List(<<Str("c")>>), List(<<Str("a"), Str("b"), Str("c")>>)>>,
  <<V2, "delete", <<At(0)>>, NoNode, List(<<Str("b")>>)>>,
  <<V2, "replace", <<At(-1)>>, V1, List(<<Str("a"), V1>>)>>,
  <<V2, "combine", <<Wild>>, Str("+"), List(<<Str("a+"), Str("b+")>>)>>,
  <<V3, "delete", <<Child("k"), Child("z")>>, NoNode, Obj(<<KV("k", Obj(<<>>)), KV("s", List(<<Str("x"), Obj(<<KV("w", Str("y"))>>)>>))>>)>>,
  <<V3, "merge", <<>>, Obj(<<KV("k", Obj(<<KV("y", Str("n"))>>))>>),
        Obj(<<KV("k", Obj(<<KV("z", Str("a")), KV("y", Str("n"))>>)), KV("s", List(<<Str("x"), Obj(<<KV("w", Str("y"))>>)>>))>>)>>,
  <<V3, "merge", <<Child("s")>>, List(<<Str("n")>>),
        Obj(<<KV("k", Obj(<<KV("z", Str("a"))>>)), KV("s", List(<<Str("x"), Obj(<<KV("w", Str("y"))>>), Str("n")>>))>>)>>,
  <<V3, "replace", <<Desc("w")>>, Str("n"), Obj(<<KV("k", Obj(<<KV("z", Str("a"))>>)), KV("s", List(<<Str("x"), Obj(<<KV("w", Str("n"))>>)>>))>>)>>,
  <<V4, "combine", <<>>, Str("+"), Str("t+")>>,
  <<V4, "merge", <<>>, Str("n"), Str("n")>>,
  <<V4, "replace", <<>>, V1, V1>> >>

Old == Str("old")
TheDoc(p, q, r, l0, l1, rest) == Doc(Obj(<<KV("p", p), KV("q", q), KV("r", Obj(<<KV("p", r)>>)), KV("l", List(<<l0, l1>>))>> \o rest))

(* how the value gets where: [overlay for value v, the places] *)
Spot(steps) == Path(steps)
PP == <<Child("p")>> QQ == <<Child("q")>> RR == <<Child("r"), Child("p")>> L0 == <<Child("l"), At(0)>> L1 == <<Child("l"), At(1)>>
N1 == <<Child("new"), Child("one")>> N2 == <<Child("new"), Child("two")>>
NW == 8
Way(w, v) ==
  CASE w = 1 -> <<Ov("replace", <<Spot(PP), Spot(QQ)>>, v), <<PP, QQ>>>>
    [] w = 2 -> <<Ov("merge", <<Spot(QQ), Spot(PP)>>, v), <<PP, QQ>>>>
    [] w = 3 -> <<Ov("replace", <<Spot(<<Child("l"), Wild>>)>>, v), <<L0, L1>>>>
    [] w = 4 -> <<Ov("replace", <<Spot(<<Desc("p")>>)>>, v), <<PP, RR>>>>
    [] w = 5 -> <<[Ov("merge", <<Spot(<<Child("none"), Wild>>)>>, v) EXCEPT !.om = "inject", !.ip = <<Spot(N1), Spot(N2)>>], <<N1, N2>>>>
    [] w = 6 -> <<[Ov("replace", <<Spot(<<Child("none"), Wild>>)>>, v) EXCEPT !.om = "inject", !.ip = <<Spot(<<Child("new"), Names(<<"one", "two">>)>>)>>], <<N1, N2>>>>
    [] w = 7 -> <<Ov("merge", <<Spot(<<>>)>>, Obj(<<KV("p", v), KV("q", v), KV("l", List(<<v>>))>>)), <<PP, QQ, <<Child("l"), At(2)>>>>>>
    [] w = 8 -> <<Ov("merge", <<Spot(<<Child("l")>>), Spot(<<Child("l")>>)>>, List(<<v>>)), << <<Child("l"), At(2)>>, <<Child("l"), At(3)>> >>>>

(* to what: one document, a file, both files *)
Scopes == <<"document", "file", "all">>
(* in which of the documents (of the first file) and places the change is made; whether the overlay comes again, where it can *)
Lens == <<Len(Edits), NW, Len(Scopes), 2, 2, 2>>
Total == Product(Lens)
X(i) == Digits0(i, Lens)

CanRepeat(w) == w \in {1, 3, 4, 6}
MakesSense(i) == LET x == X(i) IN (x[3] = 1 => x[4] = 1) /\ (x[6] = 2 => CanRepeat(x[2]))

Fresh == TheDoc(Old, Old, Old, Old, Old, <<>>)
Scenario(i) ==
  LET x == X(i) e == Edits[x[1]] w == Way(x[2], e[1])
      only == [w[1] EXCEPT !.di = [has |-> TRUE, is |-> <<0>>]]
      edit == [Ov(e[2], <<Path(w[2][x[5]] \o e[3])>>, e[4]) EXCEPT !.di = [has |-> TRUE, is |-> <<x[4] - 1>>]]
      s == [Nothing EXCEPT !.id = Num(i), !.fs = <<File("/R/w/a.yaml", <<Fresh, Fresh>>), File("/R/w/b.yaml", <<Fresh>>)>>]
      again == IF x[6] = 2 THEN <<IF x[3] = 1 THEN only ELSE w[1]>> ELSE <<>>
  IN WithInstr(s, IF x[3] = 3 THEN <<w[1]>> ELSE <<>>,
       <<Entry("a.yaml", "", (IF x[3] = 3 THEN <<>> ELSE IF x[3] = 1 THEN <<only>> ELSE <<w[1]>>) \o <<edit>> \o again, <<>>),
         Entry("b.yaml", "", <<>>, <<>>)>>)

Init == \E i \in Part(Total) : Seed(i)
Make(i) == IF MakesSense(i) THEN <<Scenario(i)>> ELSE <<>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C10 says ---- *)
(* the document with each place holding what it should *)
Should(i, f, d) ==
  LET x == X(i) e == Edits[x[1]] ps == Way(x[2], e[1])[2]
      here == x[3] = 3 \/ (f = 1 /\ (x[3] = 2 \/ d = 1))
      At0(steps) == IF ~here THEN Old
                    ELSE LET K == {k \in 1..Len(ps) : ps[k] = steps} IN
                         IF K = {} THEN Old ELSE IF f = 1 /\ d = x[4] /\ x[6] = 1 /\ MinOf(K) = x[5] THEN e[5] ELSE e[1]
      base == TheDoc(At0(PP), At0(QQ), At0(RR), At0(L0), At0(L1),
                     IF here /\ x[2] \in {5, 6} THEN <<KV("new", Obj(<<KV("one", At0(N1)), KV("two", At0(N2))>>))>> ELSE <<>>)
      more == IF ~here THEN <<>>
              ELSE IF x[2] = 7 THEN <<At0(<<Child("l"), At(2)>>)>>
              ELSE IF x[2] = 8 THEN <<At0(<<Child("l"), At(2)>>), At0(<<Child("l"), At(3)>>)>> ELSE <<>>
  IN [base EXCEPT !.c[1].c[8].c = @ \o more]

Independent ==
  phase = "done" =>
    /\ exit = 0 /\ Len(out) = 2
    /\ LET i == atoi(sc.id) IN
       \A k \in 1..Len(out) : \A d \in 1..Len(out[k].docs) :
         \/ Meaning(out[k].docs[d]) = Meaning(Should(i, out[k].f, d))
         \/ PrintT(<<"not", i, Brief(out[k].docs[d]), Brief(Should(i, out[k].f, d))>>) /\ FALSE
=============================================================================
