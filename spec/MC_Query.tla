----------------------------- MODULE MC_Query -----------------------------
(* Every path of up to two steps, and some longer ones, on documents of every shape. What a path selects is said here
   again (Sel), as a relation between places of the document; C20 says that the two are the same. *)
EXTENDS Base

X(s) == Str(s)
DocPool == MapSeq(<<
  Obj(<<<<"a", IntV("1")>>, <<"b", X("x")>>, <<"c", Null>>>>),
  Obj(<<<<"a", List(<<IntV("1"), X("x"), Obj(<<<<"a", X("y")>>, <<"b", IntV("2")>>>>)>>)>>, <<"b", Obj(<<<<"a", IntV("3")>>, <<"c", List(<<>>)>>>>)>>>>),
  List(<<IntV("0"), IntV("1"), IntV("2"), IntV("3"), IntV("4")>>),
  List(<<Obj(<<<<"a", IntV("1")>>, <<"b", X("x")>>>>), Obj(<<<<"b", X("y")>>>>), Obj(<<<<"a", IntV("2")>>>>), X("a")>>),
  List(<<List(<<IntV("1"), IntV("2")>>), List(<<>>), List(<<List(<<X("z")>>)>>)>>),
  Obj(<<<<"a", Obj(<<<<"a", Obj(<<<<"a", X("x")>>, <<"b", List(<<X("x"), X("y")>>)>>>>)>>, <<"b", IntV("2")>>>>)>>, <<"c", X("a")>>>>),
  Obj(<<<<"c", List(<<Obj(<<<<"c", List(<<Obj(<<<<"a", IntV("1")>>>>)>>)>>>>), Null>>)>>, <<"1", X("k")>>, <<"a", BoolV("true")>>>>),
  Map(<<IntV("1"), X("x"), BoolV("true"), X("y"), Null, X("z"), Str("a"), Map(<<>>)>>),
  Map(<<>>), List(<<>>), X("x"), Null>>, Doc)

Ixs == <<<<Ix(0)>>, <<Ix(1)>>, <<Ix(-1)>>, <<Ix(4)>>, <<Ix(-5)>>, <<Ix(9)>>, <<Ix(2), Ix(0)>>, <<Ix(0), Ix(0)>>, <<AllIx, Ix(0)>>, <<Slice(<<1>>, <<3>>, <<>>)>>,
         <<Slice(<<>>, <<2>>, <<>>)>>, <<Slice(<<-2>>, <<>>, <<>>)>>, <<Slice(<<>>, <<-1>>, <<>>)>>, <<Slice(<<>>, <<>>, <<2>>)>>, <<Slice(<<1>>, <<>>, <<2>>)>>,
         <<Slice(<<>>, <<>>, <<-1>>)>>, <<Slice(<<3>>, <<0>>, <<-1>>)>>, <<Slice(<<>>, <<1>>, <<-2>>)>>, <<Slice(<<-9>>, <<9>>, <<>>)>>, <<Slice(<<3>>, <<1>>, <<>>)>>,
         <<Slice(<<9>>, <<-9>>, <<-2>>)>>, <<Slice(<<>>, <<>>, <<>>), Ix(-1)>>>>

Here == AtPath(<<>>)
Sub1(n) == AtPath(<<Child(n)>>)
AtV(n) == [o |-> "at", p |-> Sub1(n)]
Lit(y, v) == [o |-> "lit", y |-> y, v |-> v]
Cmp(op, a, b) == [f |-> "cmp", op |-> op, a |-> a, b |-> b]
Exists(n) == [f |-> "exists", o |-> "at", p |-> Sub1(n)]
Exprs == <<Exists("a"), [f |-> "not", a |-> Exists("a")], Cmp("==", AtV("a"), Lit("num", "1")), Cmp("!=", AtV("a"), Lit("num", "1")),
           Cmp(">=", AtV("a"), Lit("num", "2")), Cmp("<", Lit("num", "1"), AtV("a")), Cmp("==", AtV("b"), Lit("str", "x")),
           [f |-> "and", a |-> Exists("a"), b |-> Exists("b")], [f |-> "or", a |-> Exists("a"), b |-> Cmp("==", AtV("b"), Lit("str", "y"))],
           Cmp("<=", [o |-> "at", p |-> Here], Lit("num", "2")), [f |-> "re", a |-> AtV("b"), pre |-> TRUE, v |-> "x", post |-> FALSE],
           Cmp("==", AtV("a"), [o |-> "root", p |-> Path(<<At(0), Child("a")>>)]), [f |-> "exists", o |-> "root", p |-> Path(<<Child("c")>>)]>>

Steps1 ==
  <<Child("a"), Child("b"), Child("zz"), Child("1"), Wild, Names(<<"a", "b">>), Names(<<"c", "a">>), Names(<<"a", "a">>), Desc("a"), Desc("c"), DescWild,
    DescThen>> \o MapSeq(Ixs, Idx) \o MapSeq(Exprs, Where)
KeySteps == <<Prop("a"), Props(<<"b", "a">>), WildProp>>
N1 == Len(Steps1)
Ends == Steps1 \o KeySteps

(* 1: one step, 2: two steps, 3: three steps of a few kinds *)
Few == <<Child("a"), Wild, At(0), Desc("a"), DescThen, Idx(<<Slice(<<>>, <<>>, <<-1>>)>>), Where(Exists("a")), Idx(<<AllIx, Ix(0)>>)>>
Raw ==
  <<<<>>>> \o [i \in 1..Len(Ends) |-> <<Ends[i]>>]
  \o [i \in 1..(N1 * Len(Ends)) |-> <<Steps1[((i - 1) \div Len(Ends)) + 1], Ends[((i - 1) % Len(Ends)) + 1]>>]
  \o [i \in 1..(Len(Few) * Len(Few) * Len(Few)) |-> <<Few[((i - 1) \div 64) + 1], Few[(((i - 1) \div 8) % 8) + 1], Few[((i - 1) % 8) + 1]>>]

(* after .. there must be an index or a filter, and nothing can follow the names of keys; a filter behind .. looks at what is selected
   so far, not at its items *)
Brackets == {"idx", "filter"}
Possible(ss) ==
  /\ \A i \in 1..Len(ss) : ss[i].op = "descthen" => i < Len(ss) /\ ss[i + 1].op \in Brackets
Adjusted(ss) ==
  [i \in 1..Len(ss) |-> IF i > 1 /\ ss[i - 1].op \in {"desc", "descwild", "descthen"} /\ ss[i].op = "filter" THEN DescWhere(ss[i].e) ELSE ss[i]]
PathPool == TLCEval(MapSeq(SelectSeq(Raw, Possible), LAMBDA ss : Path(Adjusted(ss))))

Acts == <<"merge", "replace", "delete">>
Lens == <<Len(DocPool), Len(PathPool)>>
Total == Product(Lens)
G == 36

CaseDoc(i) == DocPool[Digits0(i, Lens)[1]]
CasePath(i) == PathPool[Digits0(i, Lens)[2]]
(* the three actions take turns, so that every path meets every one of them *)
CaseOv(i) ==
  LET a == Acts[((i + i \div Len(DocPool)) % 3) + 1] IN
  Ov(a, <<CasePath(i)>>, IF a = "delete" THEN NoNode ELSE IF a = "merge" THEN Obj(<<<<"hit", Str("h")>>>>) ELSE Str("HIT"))

Init == \E b \in Part(Batches(Total, G)) : Seed(b)
Make(b) == Cases("q" \o Num(b), InBatch(Total, G, b), CaseDoc, LAMBDA i : <<CaseOv(i)>>, <<>>, "ignore")
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- the same again, as a relation: y is selected from x by a step; x, y are nodes of the document o ---- *)
All(o) == Range(Preorder(o.c[1]))
Up(x) == SubSeq(x.id, 1, Len(x.id) - 1)
No1(x) == x.id[Len(x.id)]            \* position among its siblings, keys counted
ValueIn(x, y) == Up(y) = x.id /\ (x.k = "s" \/ (x.k = "m" /\ No1(y) % 2 = 0))
KeyIn(x, y) == x.k = "m" /\ Up(y) = x.id /\ No1(y) % 2 = 1
NameOf(x, y) == x.c[IF No1(y) % 2 = 0 THEN No1(y) - 1 ELSE No1(y)].v
InTree(x, z) == z.id = x.id \/ (Len(z.id) > Len(x.id) /\ SubSeq(z.id, 1, Len(x.id)) = x.id)

Picks(sub, i, len) == \* is position i (from 0) of a list with len items meant
  CASE sub.w = "*" -> TRUE
    [] sub.w = "i" -> i = sub.i \/ i = sub.i + len
    [] sub.w = ":" ->
         LET st1 == IF sub.hs THEN sub.step ELSE 1
             wrap(v) == IF v < 0 THEN v + len ELSE v
             lo == IF st1 > 0 THEN (IF sub.hf THEN Larger(wrap(sub.from), 0) ELSE 0) ELSE (IF sub.hf THEN wrap(sub.from) ELSE len - 1)
             hi == IF sub.ht THEN wrap(sub.to) ELSE IF st1 > 0 THEN len ELSE -1
         IN IF st1 > 0 THEN lo <= i /\ i < hi /\ (i - lo) % st1 = 0
            ELSE i <= lo /\ i > hi /\ (Smaller(lo, len) - i) % (-st1) = 0

RECURSIVE Meets(_, _, _)
Meets(e, x, o) ==
  CASE e.f = "exists" -> IF e.o = "at" THEN \E y \in All(o) : ValueIn(x, y) /\ x.k = "m" /\ NameOf(x, y) = e.p.steps[1].name
                         ELSE o.c[1].k = "m" /\ \E y \in All(o) : ValueIn(o.c[1], y) /\ NameOf(o.c[1], y) = e.p.steps[1].name
    [] e.f = "not" -> ~Meets(e.a, x, o)
    [] e.f = "and" -> Meets(e.a, x, o) /\ Meets(e.b, x, o)
    [] e.f = "or" -> Meets(e.a, x, o) \/ Meets(e.b, x, o)
    [] OTHER -> Filter(e, x, o)

Sel(s, x, y, o) ==
  CASE s.op = "child" -> x.k = "m" /\ ValueIn(x, y) /\ NameOf(x, y) = s.name
    [] s.op = "names" -> x.k = "m" /\ ValueIn(x, y) /\ NameOf(x, y) \in Range(s.names)
    [] s.op = "wild" -> ValueIn(x, y)
    [] s.op = "idx" -> x.k = "s" /\ ValueIn(x, y) /\ \E j \in 1..Len(s.subs) : Picks(s.subs[j], No1(y) - 1, Len(x.c))
    [] s.op = "desc" -> \E z \in All(o) : InTree(x, z) /\ z.k = "m" /\ ValueIn(z, y) /\ NameOf(z, y) = s.name
    [] s.op = "descwild" -> \E z \in All(o) : InTree(x, z) /\ ValueIn(z, y)
    [] s.op = "descthen" -> InTree(x, y)
    [] s.op = "filter" -> IF x.k = "s" THEN ValueIn(x, y) /\ Meets(s.e, y, o) ELSE x = y /\ Meets(s.e, x, o)
    [] s.op = "rfilter" -> x = y /\ Meets(s.e, x, o)
    [] s.op = "prop" -> KeyIn(x, y) /\ NameOf(x, y) = s.name
    [] s.op = "props" -> KeyIn(x, y) /\ NameOf(x, y) \in Range(s.names)
    [] s.op = "wildprop" -> KeyIn(x, y)

RECURSIVE SelAll(_, _, _)
SelAll(ss, X1, o) == IF ss = <<>> THEN X1 ELSE SelAll(Tail(ss), {y \in All(o) : \E x \in X1 : Sel(Head(ss), x, y, o)}, o)

Selects ==
  AllCases(LAMBDA i, o, r :
    LET p == CasePath(i) IN
    p.steps # <<>> => Range(Find(<<p>>, o)) = SelAll(p.steps, {o.c[1]}, o))

(* in document order, each node once, unless the path itself changes the order or counts twice *)
Straight(ss) ==
  \A i \in 1..Len(ss) :
    /\ ss[i].op \in {"child", "wild", "filter", "prop", "wildprop", "idx"}
    /\ ss[i].op = "idx" => Len(ss[i].subs) = 1 /\ (ss[i].subs[1].w = ":" => ~ss[i].subs[1].hs \/ ss[i].subs[1].step > 0)
InDocumentOrder ==
  AllCases(LAMBDA i, o, r :
    Straight(CasePath(i).steps) =>
      LET f == FindIds(<<CasePath(i)>>, o) all == MapSeq(Preorder(o), LAMBDA x : x.id) IN
      f = SelectSeq(all, LAMBDA x : x \in Range(f)))

(* what was found is what was changed: nothing else *)
Nowhere == AllCases(LAMBDA i, o, r : Find(<<CasePath(i)>>, o) = <<>> => Data(r) = Data(o))
=============================================================================
