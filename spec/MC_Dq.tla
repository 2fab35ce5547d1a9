------------------------------ MODULE MC_Dq ------------------------------
(* Overlays for documents that meet conditions: every one or two groups of up to two conditions, on documents that meet
   some of them; with an earlier overlay that makes a condition true or not. *)
EXTENDS Base

DocPool == MapSeq(<<
  Obj(<<<<"a", IntV("1")>>, <<"b", Str("x")>>>>), Obj(<<<<"a", IntV("1")>>>>), Obj(<<<<"b", Str("x")>>>>), Obj(<<<<"a", Str("1")>>, <<"b", Str("y")>>>>),
  Obj(<<<<"a", IntV("2")>>, <<"k", Obj(<<<<"a", IntV("1")>>>>)>>>>), Obj(<<<<"k", List(<<Obj(<<<<"a", IntV("1")>>>>), Obj(<<<<"a", IntV("1")>>>>)>>)>>>>),
  Obj(<<<<"a", Obj(<<<<"b", Str("x")>>, <<"c", List(<<Null>>)>>>>)>>>>), Map(<<>>), List(<<IntV("1")>>), Null>>, Doc)

C0(qs, v) == [qs |-> qs, value |-> v]
A == Path(<<Child("a")>>)
CondPool == <<
  C0(<<A>>, NoNode), C0(<<A>>, IntV("1")), C0(<<A>>, Str("1")), C0(<<Path(<<Child("b")>>)>>, Str("x")), C0(<<Path(<<Child("zz")>>)>>, NoNode),
  C0(<<Path(<<Desc("a")>>)>>, IntV("1")), C0(<<A, Path(<<Child("k"), Child("a")>>)>>, IntV("1")), C0(<<A>>, Obj(<<<<"b", Str("x")>>, <<"c", List(<<Null>>)>>>>)),
  C0(<<Path(<<>>)>>, NoNode)>>
NC == Len(CondPool)
GroupPool == TLCEval(<<<<>>>> \o [i \in 1..NC |-> <<CondPool[i]>>] \o [i \in 1..(NC * NC) |-> <<CondPool[((i - 1) \div NC) + 1], CondPool[((i - 1) % NC) + 1]>>])

(* no first overlay, one that makes a the number 1, one that removes it *)
Before == << <<>>, <<Ov("replace", <<A>>, IntV("1"))>>, <<Ov("delete", <<A>>, NoNode)>> >>

(* the second group: none, or one of the smaller ones *)
NG == Len(GroupPool)
Lens == <<Len(DocPool), NG, NC + 2, 3>>
Total == Product(Lens)
G == 40

D(i) == DocPool[Digits0(i, Lens)[1]]
Dq(i) == LET d == Digits0(i, Lens) IN <<GroupPool[d[2]]>> \o (IF d[3] = 1 THEN <<>> ELSE <<GroupPool[d[3] - 1]>>)
Hit == Path(<<Child("hit")>>)
O(i) == Before[Digits0(i, Lens)[4]] \o <<[Ov("merge", <<Hit>>, Str("yes")) EXCEPT !.dq = Dq(i), !.om = "inject"]>>

Init == \E b \in Part(Batches(Total, G)) : Seed(b)
Make(b) == Cases("d" \o Num(b), InBatch(Total, G, b), D, O, <<>>, "ignore")
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C08 says: one group all of whose conditions hold; a condition holds if its queries find something and all
   that they find is the value ---- *)
Found(c, o) == UNION {Range(Find(<<c.qs[j]>>, o)) : j \in 1..Len(c.qs)}
True1(c, o) == Found(c, o) # {} /\ \A x \in Found(c, o) : c.value.k = "0" \/ Data(x) = Data(c.value)
Changed(i, o) == ApplyAll(Before[Digits0(i, Lens)[4]], o, "ignore").doc

Qualified ==
  AllCases(LAMBDA i, o, r :
    LET now == Changed(i, o)
        q == \E g \in Range(Dq(i)) : \A c \in Range(g) : True1(c, now)
    IN IF q THEN Find(<<Hit>>, r) # <<>> /\ Find(<<Hit>>, r)[1].v = "yes" ELSE Data(r) = Data(now))
=============================================================================
