----------------------------- MODULE MC_Actions -----------------------------
(* Every action with every value at every query, on every small document, and what C01-C04 and C22 say about it. *)
EXTENDS Base

Leaves == <<IntV("1"), Str("x"), Null>>
Inner == Leaves \o <<Map(<<>>), List(<<>>), Obj(<<<<"a", Str("x")>>>>), List(<<IntV("1"), Str("x")>>),
                     Obj(<<<<"a", IntV("1")>>, <<"b", Obj(<<<<"a", Str("y")>>>>)>>>>), List(<<Obj(<<<<"a", IntV("1")>>>>), List(<<Str("x")>>)>>)>>
NI == Len(Inner)
DocPool ==
  MapSeq([i \in 1..NI |-> Obj(<<<<"a", Inner[i]>>>>)]
         \o [i \in 1..(NI * NI) |-> Obj(<<<<"a", Inner[(i - 1) \div NI + 1]>>, <<"b", Inner[((i - 1) % NI) + 1]>>>>)]
         \o [i \in 1..NI |-> List(<<Inner[i], Str("x"), Obj(<<<<"a", Inner[NI + 1 - i]>>>>)>>)]
         \o Inner, Doc)

QueryPool == <<
  Path(<<>>), Path(<<Child("a")>>), Path(<<Child("b")>>), Path(<<Child("a"), Child("a")>>), Path(<<Wild>>), Path(<<Desc("a")>>),
  Path(<<DescWild>>), Path(<<Child("a"), At(0)>>), Path(<<Idx(<<Slice(<<>>, <<>>, <<>>)>>)>>), Path(<<Wild, Wild>>), Path(<<Prop("a")>>),
  Path(<<DescThen, At(-1)>>), Path(<<Names(<<"b", "a">>)>>)>>

ValuePool == Inner \o <<Obj(<<<<"b", IntV("2")>>, <<"a", List(<<Str("z")>>)>>>>), Obj(<<<<"c", Null>>, <<"d", Obj(<<<<"a", Str("x")>>>>)>>>>)>>

Lens == <<Len(DocPool), Len(QueryPool), 2 * Len(ValuePool) + 1>>
Total == Product(Lens)
G == 40

CaseDoc(i) == DocPool[Digits0(i, Lens)[1]]
CaseOv(i) ==
  LET d == Digits0(i, Lens) v == d[3] m == Len(ValuePool) IN
  IF v > 2 * m THEN Ov("delete", <<QueryPool[d[2]]>>, NoNode)
  ELSE Ov(IF v > m THEN "replace" ELSE "merge", <<QueryPool[d[2]]>>, ValuePool[((v - 1) % m) + 1])

(* consecutive cases differ in the document first *)
Init == \E b \in Part(Batches(Total, G)) : Seed(b)
Make(b) == Cases("a" \o Num(b), InBatch(Total, G, b), CaseDoc, LAMBDA i : <<CaseOv(i)>>, <<>>, "ignore")
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what holds of a document before (o) and after (r), with the overlay that was applied ---- *)
Own(x) == <<x.k, x.t, x.v, x.h, x.l, x.f, x.a>>
Ids(x) == {y.id : y \in Range(Preorder(x))}
Under(x, top) == Len(x) > Len(top) /\ SubSeq(x, 1, Len(top)) = top

Selected(o, ov) == Range(FindIds(ov.qs, o))

(* what goes with a node that is deleted: it, its key or the value of the key *)
Parent(id) == SubSeq(id, 1, Len(id) - 1)
Gone(o, S) ==
  {x \in Ids(o) : \E s \in S :
     \/ s = x \/ Under(x, s)
     \/ /\ Len(s) > 1 /\ ById(o, Parent(s)).k = "m"
        /\ LET i == s[Len(s)]
               twin == Append(Parent(s), IF i % 2 = 1 THEN i + 1 ELSE i - 1) IN x = twin \/ Under(x, twin)}

Touched(o, ov, S) ==
  IF ov.action = "delete" THEN Gone(o, S)
  ELSE {x \in Ids(o) : \E s \in S : s = x \/ Under(x, s)}

KidIds(x) == MapSeq(x.c, LAMBDA y : y.id)

(* C01: a node that is neither selected nor inside something selected stays, with all it says, in its place among its siblings *)
FrameHolds(o, ov, r) ==
  LET S == Selected(o, ov) T == Touched(o, ov, S) IN
  \A x \in Ids(o) \ T :
    /\ HasId(r, x)
    /\ Own(ById(r, x)) = Own(ById(o, x))
    /\ KidIds(ById(r, x)) = SelectSeq(KidIds(ById(o, x)), LAMBDA y : ov.action # "delete" \/ y \notin T)

(* the selected nodes that are in nothing else selected *)
Outermost(o, ov) == LET S == Selected(o, ov) IN {x \in S : ~\E y \in S : Under(x, y)}

(* C02 *)
ReplaceHolds(o, ov, r) ==
  ov.action = "replace" => \A x \in Outermost(o, ov) : Data(ById(r, x)) = Data(ov.value)

(* C03: what r must be if v is merged into o *)
RECURSIVE Merged(_, _, _)
Merged(o, v, r) ==
  CASE v.k = "m" ->
         LET base == IF o.k = "m" THEN o.c ELSE <<>>
             N(c) == [i \in 1..(Len(c) \div 2) |-> c[2 * i - 1].v]
             V(c) == [i \in 1..(Len(c) \div 2) |-> c[2 * i]]
             new == SelectSeq(N(v.c), LAMBDA x : x \notin Range(N(base)))
             In(ns, x) == CHOOSE i \in 1..Len(ns) : ns[i] = x
         IN /\ r.k = "m" /\ N(r.c) = N(base) \o new
            /\ \A i \in 1..Len(N(r.c)) :
                 LET x == N(r.c)[i] y == V(r.c)[i] IN
                 IF x \in Range(N(v.c)) /\ x \in Range(N(base)) THEN Merged(V(base)[In(N(base), x)], V(v.c)[In(N(v.c), x)], y)
                 ELSE IF x \in Range(N(v.c)) THEN Data(y) = Data(V(v.c)[In(N(v.c), x)])
                 ELSE y = V(base)[In(N(base), x)]
    [] v.k = "s" -> LET base == IF o.k = "s" THEN o.c ELSE <<>> IN
                    r.k = "s" /\ SubSeq(r.c, 1, Len(base)) = base
                    /\ MapSeq(SubSeq(r.c, Len(base) + 1, Len(r.c)), Data) = MapSeq(v.c, Data)
    [] OTHER -> Data(r) = Data(v)

(* where nothing selected is inside something else selected the merges do not meet *)
MergeHolds(o, ov, r) ==
  ov.action = "merge" =>
    \A x \in Outermost(o, ov) :
      (~\E y \in Selected(o, ov) : Under(y, x)) /\ (\A i, j \in 1..Len(FindIds(ov.qs, o)) : i # j => FindIds(ov.qs, o)[i] # FindIds(ov.qs, o)[j])
      => Merged(ById(o, x), ov.value, ById(r, x))

(* C04 *)
DeleteHolds(o, ov, r) == ov.action = "delete" => Ids(r) = Ids(o) \ Gone(o, Selected(o, ov))

(* C22: the same again changes nothing; lists are appended to and positions move up *)
RECURSIVE HasList(_)
HasList(x) == x.k = "s" \/ \E i \in 1..Len(x.c) : HasList(x.c[i])
Again(ov, r) == Apply(ov, r, <<>>, "ignore").doc
StableHolds(o, ov, r) ==
  \/ r.c = <<>> \/ (ov.action = "merge" /\ HasList(ov.value))
  \/ \E i \in 1..Len(ov.qs[1].steps) : ov.qs[1].steps[i].op \in {"idx", "wild", "desc", "descwild"}
  \/ Data(Again(ov, r)) = Data(r)

ForAll(P(_, _, _)) == AllCases(LAMBDA i, o, r : P(o, CaseOv(i), r))

Frame == ForAll(FrameHolds)
Replaced == ForAll(ReplaceHolds)
MergedAll == ForAll(MergeHolds)
Deleted == ForAll(DeleteHolds)
Stable == ForAll(StableHolds)
=============================================================================
