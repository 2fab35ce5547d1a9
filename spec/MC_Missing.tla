----------------------------- MODULE MC_Missing -----------------------------
(* Overlays whose queries may not find anything: every combination of document, queries, action, onMissing, injectPath
   and default setting, and what C09 says about them. *)
EXTENDS Base

DocPool == MapSeq(<<
  Obj(<<<<"a", IntV("1")>>>>), Obj(<<<<"a", Obj(<<<<"b", IntV("1")>>>>)>>, <<"k", Str("x")>>>>), Obj(<<<<"a", Null>>>>),
  Obj(<<<<"a", List(<<IntV("1")>>)>>>>), Map(<<>>), List(<<Obj(<<<<"a", IntV("1")>>>>)>>), Str("x"), Null, Obj(<<<<"b", Obj(<<<<"c", Null>>>>)>>>>)>>, Doc)

P(ss) == Path(ss)
A == Child("a")
B == Child("b")
C == Child("c")
QsPool == <<
  <<P(<<A>>)>>, <<P(<<B>>)>>, <<P(<<A, B>>)>>, <<P(<<B, C>>)>>, <<P(<<B, C, A>>)>>, <<P(<<Names(<<"a", "c">>)>>)>>, <<P(<<Names(<<"c", "d">>), B>>)>>,
  <<P(<<A, At(0)>>)>>, <<P(<<B, Wild>>)>>, <<P(<<Desc("c")>>)>>, <<P(<<>>)>>, <<P(<<B>>), P(<<C>>)>>, <<P(<<A>>), P(<<B>>)>>, <<P(<<B>>), P(<<At(0)>>)>>,
  <<P(<<Where([f |-> "exists", o |-> "at", p |-> AtPath(<<C>>)])>>)>>, <<P(<<A, Prop("b")>>)>>, <<>> >>
IpPool == << <<>>, <<P(<<C>>)>>, <<P(<<C, Child("d")>>)>>, <<P(<<A, Child("q")>>)>>, <<P(<<Child("x")>>), P(<<Child("y"), A>>)>>, <<P(<<A, At(0)>>)>>, <<P(<<>>)>> >>
Acts == <<"merge", "replace", "delete", "combine">>
Oms == <<"default", "ignore", "inject">>
ValuePool == <<Str("new"), Obj(<<<<"p", IntV("1")>>>>), List(<<Str("i")>>), NoNode>>
Dflts == <<"", "ignore", "inject">>

Lens == <<Len(DocPool), Len(QsPool), Len(IpPool), 4, 3, Len(ValuePool)>>
Total == Product(Lens)
G == 40

D(i) == DocPool[Digits0(i, Lens)[1]]
O(i) ==
  LET d == Digits0(i, Lens) a == Acts[d[4]] IN
  [Ov(a, QsPool[d[2]], IF a = "delete" THEN NoNode ELSE ValuePool[d[6]]) EXCEPT !.om = Oms[d[5]], !.ip = IpPool[d[3]]]

Flags0(k) == IF Dflts[k] = "" THEN <<>> ELSE <<[n |-> "defaultOnMissingAction", v |-> Dflts[k]]>>

Init == \E b \in Part(3 * Batches(Total, G)) : Seed(b)
Make(b) ==
  LET k == (b % 3) + 1 c == b \div 3 IN
  Cases("m" \o Num(c) \o Dflts[k], InBatch(Total, G, c), D, LAMBDA i : <<O(i)>>, Flags0(k), IF k = 3 THEN "inject" ELSE "ignore")
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C09 says ---- *)
Inject(ov) == ov.action \in {"merge", "replace"} /\ (ov.om = "inject" \/ (ov.om = "default" /\ OnMissingDefault(sc) = "inject"))
Names1(ps) == \A i \in 1..Len(ps) : \A j \in 1..Len(ps[i].steps) : ps[i].steps[j].op \in {"child", "names"}

Ignored ==
  AllCases(LAMBDA i, o, r :
    Find(O(i).qs, o) = <<>> /\ ~(Inject(O(i)) /\ ((O(i).qs # <<>> /\ Names1(O(i).qs)) \/ O(i).ip # <<>>)) => Data(r) = Data(o))

(* the paths are there now, with the value at each of them *)
Where1(ov) == IF ov.qs # <<>> /\ Names1(ov.qs) THEN ov.qs ELSE ov.ip
Same1(v, x) == IF v.k = "0" THEN x.k = "0" ELSE Data(x) = Data(v)
Injected ==
  AllCases(LAMBDA i, o, r :
    LET ov == O(i) ps == Where1(ov) IN
    Find(ov.qs, o) = <<>> /\ Inject(ov) /\ ps # <<>> =>
      \A j \in 1..Len(ps) : LET f == Find(<<ps[j]>>, r) IN (f = <<>> => ov.value.k = "0") /\ \A k \in 1..Len(f) : Same1(ov.value, f[k]))

(* and what was there stays, unless it is in the way: a value where there must be a map now, or an old value at a path *)
Rest ==
  AllCases(LAMBDA i, o, r :
    LET ov == O(i) ps == Where1(ov) hit == {x.id : x \in Range(Find(ps, r))} IN
    Find(ov.qs, o) = <<>> /\ Inject(ov) /\ ps # <<>> /\ (\A p \in Range(ps) : p.steps # <<>>) /\ o.c[1].k = "m" =>
      \A x \in Range(Preorder(o)) :
        x.k = "v" /\ Len(x.id) > 2 /\ x.id[Len(x.id)] % 2 = 0 /\ ById(o, SubSeq(x.id, 1, Len(x.id) - 1)).k = "m" =>
          \/ (HasId(r, x.id) /\ Data(ById(r, x.id)) = Data(x))
          \/ \E p \in Range(ps) : \E n1 \in 1..Len(p.steps) :
               \E y \in Range(Find(<<Path(SubSeq(p.steps, 1, n1))>>, o)) : y.id = x.id
          \/ (\E h1 \in hit : Len(x.id) >= Len(h1) /\ SubSeq(x.id, 1, Len(h1)) = h1))
=============================================================================
