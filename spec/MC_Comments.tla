---------------------------- MODULE MC_Comments ----------------------------
(* A document with one or two comments in any of its places, with and without an overlay nearby (C16). *)
EXTENDS Base

D0 == Doc(Obj(<<<<"a", Str("1")>>, <<"b", Obj(<<<<"c", Str("2")>>, <<"d", List(<<Str("x"), Str("y")>>)>>>>)>>,
                <<"e", List(<<Obj(<<<<"f", Str("3")>>>>), List(<<Str("z")>>)>>)>>, <<"g", Map(<<>>)>>, <<"h", Str("w")>>>>))
Tree0 == Number(D0, <<1>>)

(* One after the last entry is the document's, and one before a document that is not the first is one after the document
   before it.
   [kind, the node, inside what: its top entry and so on] *)
Spots == <<
  <<"h", <<1, 1, 1>>, "a">>, <<"l", <<1, 1, 2>>, "a">>, <<"f", <<1, 1, 1>>, "a">>,
  <<"h", <<1, 1, 3>>, "b">>, <<"h", <<1, 1, 4, 1>>, "b.c">>, <<"l", <<1, 1, 4, 2>>, "b.c">>, <<"h", <<1, 1, 4, 3>>, "b.d">>,
  <<"h", <<1, 1, 4, 4, 1>>, "b.d.0">>, <<"l", <<1, 1, 4, 4, 1>>, "b.d.0">>, <<"l", <<1, 1, 4, 4, 2>>, "b.d.1">>, <<"f", <<1, 1, 4, 4, 2>>, "b.d.1">>,
  <<"h", <<1, 1, 5>>, "e">>, <<"l", <<1, 1, 6, 1, 2>>, "e.0.f">>, <<"l", <<1, 1, 6, 2, 1>>, "e.1">>,
  <<"l", <<1, 1, 8>>, "g">>, <<"h", <<1, 1, 9>>, "h">>, <<"l", <<1, 1, 10>>, "h">>, <<"f", <<1>>, "">> >>
NS == Len(Spots)

Put0(t, n) ==
  LET s == Spots[n] o == ById(t, s[2]) c == "# c" \o Num(n) IN
  Put(t, s[2], CASE s[1] = "h" -> [o EXCEPT !.h = c] [] s[1] = "l" -> [o EXCEPT !.l = c] [] s[1] = "f" -> [o EXCEPT !.f = c])

(* which ones: none, one, or two *)
Sets == <<{}>> \o [n \in 1..NS |-> {n}] \o SetToSeq({{n, m} : n, m \in 1..NS} \ {{n} : n \in 1..NS})
With0(S) == FoldLeft(LAMBDA t, n : IF n \in S THEN Put0(t, n) ELSE t, Tree0, [n \in 1..NS |-> n])
NoIds(t) == Copy(t)
Documents == TLCEval([k \in 1..Len(Sets) |-> LET t == With0(Sets[k]) IN Copy(t)])

A(n) == Path(<<Child(n)>>)
(* [overlay, what goes with all its comments, comments that are replaced, new comments] *)
Changes == <<
  [ov |-> <<>>, gone |-> {}, lost |-> {}, new |-> {}],
  [ov |-> <<Ov("merge", <<A("h")>>, Str("n"))>>, gone |-> {}, lost |-> {}, new |-> {}],
  [ov |-> <<Ov("replace", <<A("a")>>, Obj(<<<<"q", Str("n")>>>>))>>, gone |-> {}, lost |-> {}, new |-> {}],
  [ov |-> <<Ov("merge", <<Path(<<>>)>>, [Obj(<<<<"a", Str("n")>>>>) EXCEPT !.c[2].l = "# new"])>>, gone |-> {}, lost |-> {2}, new |-> {"# new"}],
  [ov |-> <<Ov("delete", <<A("b")>>, NoNode)>>, gone |-> {"b", "b.c", "b.d", "b.d.0", "b.d.1"}, lost |-> {}, new |-> {}],
  [ov |-> <<Ov("delete", <<Path(<<Child("e"), At(0)>>)>>, NoNode)>>, gone |-> {"e.0.f"}, lost |-> {}, new |-> {}],
  [ov |-> <<Ov("replace", <<Path(<<Child("b"), Child("d"), At(0)>>)>>, [Str("n") EXCEPT !.l = "# new"])>>, gone |-> {}, lost |-> {9}, new |-> {"# new"}],
  [ov |-> <<Ov("merge", <<A("b")>>, [Obj(<<<<"k", Str("n")>>>>) EXCEPT !.c[1].h = "# new"])>>, gone |-> {}, lost |-> {}, new |-> {"# new"}],
  [ov |-> <<Ov("combine", <<A("a")>>, Str("n"))>>, gone |-> {}, lost |-> {}, new |-> {}],
  [ov |-> <<Ov("replace", <<Path(<<Child("b"), Child("d")>>)>>, Str("n"))>>, gone |-> {"b.d.0", "b.d.1"}, lost |-> {}, new |-> {}],
  [ov |-> <<Ov("merge", <<Path(<<>>)>>, [Obj(<<<<"a", Str("n")>>, <<"h", Str("n")>>>>) EXCEPT !.c[1].h = "# new", !.c[3].f = "# new too"])>>,
   gone |-> {}, lost |-> {1}, new |-> {"# new", "# new too"}],
  [ov |-> <<Ov("merge", <<Path(<<>>)>>, [Obj(<<<<"a", Str("n")>>>>) EXCEPT !.c[1].f = "# new"])>>, gone |-> {}, lost |-> {3}, new |-> {"# new"}],
  [ov |-> <<Ov("merge", <<Path(<<>>)>>, [Obj(<<<<"a", Str("n")>>, <<"i", Str("n")>>>>) EXCEPT !.c[1].h = "# new", !.c[2].l = "# new too", !.c[3].h = "# new as well"])>>,
   gone |-> {}, lost |-> {1, 2}, new |-> {"# new", "# new too", "# new as well"}] >>

Styles0 == <<"", "flow", "tagged", "double,tagged", "literal">>
Lens == <<Len(Changes), 2, Len(Styles0)>>
Total == Product(Lens)
X(i) == Digits0(i, Lens)

Scenario(i) ==
  LET x == X(i)
      s == [Nothing EXCEPT !.id = Num(i), !.fs = <<File("/R/w/f.yaml", Documents)>>,
              !.flags = (IF x[2] = 1 THEN <<>> ELSE <<[n |-> "removeComments", v |-> "true"]>>)
                        \o (IF x[3] = 1 THEN <<>> ELSE <<[n |-> "outputStyle", v |-> Styles0[x[3]]]>>)]
  IN [text |-> TRUE] @@ WithInstr(s, <<>>, <<Entry("f.yaml", "", Changes[x[1]].ov, <<>>)>>)

Init == \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C16 says ---- *)
RECURSIVE Comments(_)
Comments(n) == SelectSeq(<<n.h, n.l, n.f>>, LAMBDA c : c # "") \o Flat(n.c, Comments)
Lines(n) == LET t == Flat(Comments(n), LAMBDA c : Split(SubstAll(c, " #", "\n#"), "\n")) IN t

Expected(S) ==
  LET x == X(atoi(sc.id)) ch == Changes[x[1]] IN
  ch.new \cup IF x[2] = 2 THEN {} ELSE {"# c" \o Num(n) : n \in {n \in S : Spots[n][3] \notin ch.gone /\ n \notin ch.lost}}

AllThere ==
  phase = "done" =>
    /\ exit = 0 /\ Len(out[1].docs) = Len(Sets)
    /\ LET s == TLCEval(StyleOf(Set(sc, "outputStyle"))) IN
       \A d \in 1..Len(Sets) :
         LET ls == TLCEval(Lines(Present(out[1].docs[d], s))) IN
         /\ {ls[j] : j \in 1..Len(ls)} = Expected(Sets[d])
         /\ Len(ls) = Cardinality(Expected(Sets[d]))

(* the data is the same with and without comments *)
SameData0 ==
  phase = "done" => \A d \in 1..Len(Sets) : Data(out[1].docs[d]) = Data(out[1].docs[1])
=============================================================================
