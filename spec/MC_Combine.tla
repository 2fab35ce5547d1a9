----------------------------- MODULE MC_Combine -----------------------------
(* Combining every two values, and what C05 says about it. *)
EXTENDS Base

Vals == <<
  IntV("0"), IntV("1"), IntV("-1"), IntV("7"), IntV("42"), IntV("-42"), IntV("+5"), IntV("007"), IntV("100000000000"), IntV("9223372036854775807"),
  IntV("-9223372036854775808"), IntV("9223372036854775806"), IntV("0x1f"), IntV("0o17"), BoolV("true"), BoolV("false"), BoolV("True"), BoolV("FALSE"),
  Str("x"), Str(""), Str("5"), Str("true"), Str("a b: c"), Str("two\nlines\n"), Null, Scalar("!!null", "~"), Scalar("!!null", ""), FloatV("1.5"), FloatV(".inf"),
  Scalar("!!timestamp", "2020-01-02"), Map(<<>>), List(<<>>), Obj(<<<<"a", IntV("1")>>>>), List(<<IntV("1")>>)>>

Lens == <<Len(Vals), Len(Vals)>>
Total == Product(Lens)
G == 40
O(i) == Vals[Digits0(i, Lens)[1]]
V(i) == Vals[Digits0(i, Lens)[2]]
CaseDoc(i) == Doc(Obj(<<<<"k", IntV("3")>>, <<"a", O(i)>>, <<"z", List(<<Str("k")>>)>>>>))
CaseOv(i) == Ov("combine", <<Path(<<Child("a")>>)>>, V(i))

Init == \E b \in Part(Batches(Total, G)) : Seed(b)
Make(b) == Cases("c" \o Num(b), InBatch(Total, G, b), CaseDoc, LAMBDA i : <<CaseOv(i)>>, <<>>, "ignore")
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C05 says ---- *)
Small(x) == Len(x.v) < 9 /\ IsDec(x.v)
Is(x, t) == x.k = "v" /\ x.t = t

Combined ==
  AllCases(LAMBDA i, o, r :
    LET was == O(i) by == V(i) is == r.c[1].c[4] IN
    /\ is.k = "v" /\ was.k = "v" /\ by.k = "v"
    /\ Is(was, "!!int") => is.t = "!!int" /\ (Small(was) /\ Small(by) => ToInt(is.v) = ToInt(was.v) + ToInt(by.v)) /\ Fits64(is.v)
    /\ Is(was, "!!bool") => is.t = "!!bool" /\ (is.v = "true" <=> \A x \in {was.v, by.v} : Lower(x) \in {"true", "t", "1"}) /\ is.v \in {"true", "false"}
    /\ ~Is(was, "!!int") /\ ~Is(was, "!!bool") => is.t = "!!str" /\ HasPrefix(is.v, was.v) /\ HasSuffix(is.v, by.v) /\ Len(is.v) = Len(was.v) + Len(by.v)
    \* and nothing else
    /\ Data([r EXCEPT !.c[1].c[4] = Null]) = Data([o EXCEPT !.c[1].c[4] = Null]))

(* two numbers or two truths can be exchanged *)
Symmetric ==
  phase = "done" =>
    \A j \in 1..Len(sc.cases) :
      LET o == O(sc.cases[j]) v == V(sc.cases[j]) IN
      o.t = v.t /\ o.t \in {"!!int", "!!bool"} =>
        LET a == Combine(o, v) b == Combine(v, o) IN a.ok = b.ok /\ (a.ok => a.n.v = b.n.v)

(* what cannot be combined ends the run, and nothing comes out *)
Ends ==
  phase = "done" /\ Len(sc.cases) = 1 /\ exit # 0 =>
    /\ out = <<>>
    /\ LET o == O(sc.cases[1]) v == V(sc.cases[1]) IN
       o.k # "v" \/ v.k # "v" \/ o.t \in {"!!int", "!!bool"}
=============================================================================
