----------------------------- MODULE MC_Markers -----------------------------
(* Texts made of pieces with and without markers, in every place where an overlay can have a text. What every piece
   becomes is written down here piece by piece (C17). *)
EXTENDS Base

(* the original: an entry with or without comments; its key has those before and after, its value the one on the line *)
Origins == <<
  [v |-> "x-x", h |-> "# he", l |-> "# li", f |-> "# fo"],
  [v |-> "x-x", h |-> "", l |-> "", f |-> ""],
  [v |-> "a%vb", h |-> "#%v", l |-> "", f |-> ""] >>

(* [text, what it becomes: "v", "h", "l", "f", "k" for the original's; "=" for itself; "1", "g": with x replaced by y] *)
Pieces == <<
  <<"a", "=">>, <<"%v", "v">>, <<"%k", "k">>, <<"%h", "h">>, <<"%l", "l">>, <<"%f", "f">>, <<"%v{s/x/y/}", "1">>,
  <<"%v{s/x/y/g}", "g">>, <<"%v{s|x|y|g}", "g">>, <<"%k{}", "k">>, <<"%z", "=">>, <<"100%", "=">>, <<" {n}", "=">>, <<"%v{s/x/y", "v+">> >>
NP == Len(Pieces)

Places == <<"value", "line", "line replace", "line combine", "in map", "head", "foot", "in map line", "key", "new", "new deep", "new comment",
            "item", "item comment", "replaced", "combined", "head replaced">>

Lens == <<NP + 1, NP, Len(Places), Len(Origins)>>
Total == Product(Lens)
G == 24

X(i) == Digits0(i, Lens)
Ps(i) == LET x == X(i) IN (IF x[1] = NP + 1 THEN <<>> ELSE <<Pieces[x[1]]>>) \o <<Pieces[x[2]]>>
Text(i) == Join(MapSeq(Ps(i), LAMBDA p : p[1]), "")
Place0(i) == Places[X(i)[3]]
O(i) == Origins[X(i)[4]]

CaseDoc(i) ==
  LET d == Obj(<<<<"k", Str(O(i).v)>>, <<"j", Str("w")>>, <<"l", List(<<Str("w")>>)>>>>) IN
  Doc([d EXCEPT !.c[1].h = O(i).h, !.c[1].f = O(i).f, !.c[2].l = O(i).l])

K == <<Path(<<Child("k")>>)>>
TheRoot == <<Path(<<>>)>>
L0 == <<Path(<<Child("l")>>)>>
T(i) == Str(Text(i))
Note(i) == "# " \o Text(i)
OneKey(kv) == Obj(<<kv>>)
CaseOv(i) ==
  CASE Place0(i) = "value" -> Ov("merge", K, T(i))
    [] Place0(i) = "line" -> Ov("merge", K, [Str("n") EXCEPT !.l = Note(i)])
    [] Place0(i) = "line replace" -> Ov("replace", K, [Str("n") EXCEPT !.l = Note(i)])
    [] Place0(i) = "line combine" -> Ov("combine", K, [Str("n") EXCEPT !.l = Note(i)])
    [] Place0(i) = "in map" -> Ov("merge", TheRoot, OneKey(<<"k", T(i)>>))
    [] Place0(i) = "head" -> Ov("merge", TheRoot, [OneKey(<<"k", Str("n")>>) EXCEPT !.c[1].h = Note(i)])
    [] Place0(i) = "foot" -> Ov("merge", TheRoot, [OneKey(<<"k", Str("n")>>) EXCEPT !.c[1].f = Note(i)])
    [] Place0(i) = "in map line" -> Ov("merge", TheRoot, [OneKey(<<"k", Str("n")>>) EXCEPT !.c[2].l = Note(i)])
    [] Place0(i) = "key" -> Ov("merge", TheRoot, OneKey(<<Text(i), Str("n")>>))
    [] Place0(i) = "new" -> Ov("merge", TheRoot, OneKey(<<"n", T(i)>>))
    [] Place0(i) = "new deep" -> Ov("merge", TheRoot, OneKey(<<"n", List(<<OneKey(<<"m", T(i)>>)>>)>>))
    [] Place0(i) = "new comment" -> Ov("merge", TheRoot, [OneKey(<<"n", Str("n")>>) EXCEPT !.c[1].h = Note(i)])
    [] Place0(i) = "item" -> Ov("merge", L0, List(<<T(i)>>))
    [] Place0(i) = "item comment" -> Ov("merge", L0, List(<<[Str("n") EXCEPT !.l = Note(i)]>>))
    [] Place0(i) = "replaced" -> Ov("replace", K, T(i))
    [] Place0(i) = "combined" -> Ov("combine", K, T(i))
    [] Place0(i) = "head replaced" -> Ov("replace", K, [OneKey(<<"n", T(i)>>) EXCEPT !.c[1].h = Note(i)])

(* what cannot be written as it is meant: an open brace in a comment or key is as good in any place, but a text that is
   not text in YAML or a key that is there already is another matter *)
Sense(i) == Place0(i) = "key" => \E n \in 1..Len(Ps(i)) : Ps(i)[n][2] # "="

Init == \E b \in Part(Batches(Total, G)) : Seed(b)
Make(b) ==
  LET ss == Cases("m" \o Num(b), SelectSeq(InBatch(Total, G, b), Sense), CaseDoc, LAMBDA i : <<CaseOv(i)>>, <<>>, "ignore") IN
  MapSeq(ss, LAMBDA s : [text |-> TRUE] @@ s)
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C17 says ---- *)
Raw(s) == TrimPrefix(s, "#")
NoMark(s) == IF s = "a%vb" THEN "ab" ELSE IF s = "%v" THEN "" ELSE s
OnValue(i) == [v |-> NoMark(O(i).v), h |-> "", l |-> Raw(O(i).l), f |-> "", k |-> "k"]
OnKey(i) == [v |-> NoMark(O(i).v), h |-> NoMark(Raw(O(i).h)), l |-> "", f |-> Raw(O(i).f), k |-> "k"]
Direct(i) == [OnValue(i) EXCEPT !.k = ""] \* selected as it is, not as the value of an entry
Other(name) == [v |-> "w", h |-> "", l |-> "", f |-> "", k |-> name]
Empty == [v |-> "", h |-> "", l |-> "", f |-> "", k |-> ""]

Becomes(p, e) ==
  CASE p[2] = "=" -> p[1]
    [] p[2] = "v" -> e.v [] p[2] = "h" -> e.h [] p[2] = "l" -> e.l [] p[2] = "f" -> e.f [] p[2] = "k" -> e.k
    [] p[2] = "v+" -> e.v \o "{s/x/y"
    [] p[2] = "1" -> (IF e.v = "x-x" THEN "y-x" ELSE e.v)
    [] p[2] = "g" -> (IF e.v = "x-x" THEN "y-y" ELSE e.v)
AllOfIt(i, e) == Join(MapSeq(Ps(i), LAMBDA p : Becomes(p, e)), "")

(* an open brace is closed by a later piece *)
Odd(i) == LET ps == Ps(i) IN Len(ps) = 2 /\ ps[1][2] = "v+" /\ HasSub(ps[2][1], "}")

Marked ==
  AllCases(LAMBDA i, o, r :
    LET k == r.c[1].c[1] v == r.c[1].c[2] n == Len(r.c[1].c) last == r.c[1].c[n]
        Says(t, e) == t = AllOfIt(i, e)
        Notes(t, e) == t = "# " \o AllOfIt(i, e)
    IN Odd(i) \/
       CASE Place0(i) = "value" -> Says(v.v, Direct(i)) /\ v.l = O(i).l
         [] Place0(i) \in {"line", "line replace"} -> v.v = "n" /\ Notes(v.l, Direct(i))
         [] Place0(i) = "line combine" -> v.v = O(i).v \o "n" /\ Notes(v.l, Direct(i))
         [] Place0(i) = "in map" -> Says(v.v, OnValue(i))
         [] Place0(i) = "head" -> Notes(k.h, OnKey(i)) /\ k.f = O(i).f /\ v.l = O(i).l
         [] Place0(i) = "foot" -> Notes(k.f, OnKey(i)) /\ k.h = O(i).h
         [] Place0(i) = "in map line" -> Notes(v.l, OnValue(i))
         [] Place0(i) = "key" -> /\ Says(k.v, OnKey(i)) /\ v.v = "n" /\ k.h = O(i).h
                                 /\ Says(r.c[1].c[3].v, Other("j")) /\ r.c[1].c[4].v = "n"
                                 /\ Says(r.c[1].c[5].v, [Other("l") EXCEPT !.v = ""]) /\ r.c[1].c[6].v = "n" /\ n = 6
         [] Place0(i) = "new" -> n = 8 /\ Says(last.v, Empty)
         [] Place0(i) = "new deep" -> n = 8 /\ Says(last.c[1].c[2].v, Empty)
         [] Place0(i) = "new comment" -> n = 8 /\ Notes(r.c[1].c[7].h, Empty)
         [] Place0(i) = "item" -> n = 6 /\ Says(last.c[2].v, Empty)
         [] Place0(i) = "item comment" -> Notes(last.c[2].l, Empty)
         [] Place0(i) = "replaced" -> v.v = Text(i)
         [] Place0(i) = "combined" -> v.v = O(i).v \o Text(i)
         [] Place0(i) = "head replaced" -> v.c[2].v = Text(i) /\ v.c[1].h = Note(i))
=============================================================================
