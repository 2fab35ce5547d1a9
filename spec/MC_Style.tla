----------------------------- MODULE MC_Style -----------------------------
(* Every set of output styles and several indent levels, on every value in every position (C21). *)
EXTENDS Base

Scalars0 == <<
  Str("x"), Str(""), Str("a b"), Str("a: b"), Str("# c"), Str("- d"), Str("true"), Str("No"), Str("null"), Str("~"), Str("12"), Str("0x1f"), Str("1.5"), Str("2020-01-02"),
  Str("<<"), Str(" x"), Str("x "), Str("\tx"), Str("a\nb"), Str("a\n"), Str("a\n\n"), Str("\na"), Str("a\n b"), Str("a\n\n\tb\n"), Str("  a\nb\n"), Str("'q'"), Str("\"q\""), Str("a\\b"),
  Str("%v"), Str("{x}"), Str("[x"), Str("&a"), Str("*a"), Str("!t"), Str("|"), Str("---"), Str("a\n---\nb"), Str("a" \o LineSep \o "b"), Str(LineSep),
  IntV("12"), IntV("-3"), IntV("0o17"), IntV("0x1f"), BoolV("true"), BoolV("False"), Scalar("!!null", ""), Null, FloatV("1.5"), FloatV(".inf"), FloatV("1e3"),
  Scalar("!!timestamp", "2020-01-02"), Scalar("!!timestamp", "2020-01-02T03:04:05Z"), Scalar("!mine", "x"), Map(<<>>), List(<<>>) >>

NV == Len(Scalars0)
Flat1 == SelectSeq(Scalars0, LAMBDA v : v.k = "v" /\ v.t # "!mine")

(* in a map, in a list, as the document, deep down, as a key, with comments *)
NH == 4
Held(h, v) ==
  CASE h = 1 -> Obj(<<<<"k", v>>>>)
    [] h = 2 -> List(<<v, Str("z")>>)
    [] h = 3 -> v
    [] h = 4 -> Obj(<<<<"k", List(<<Obj(<<<<"m", v>>, <<"n", List(<<v, List(<<v>>)>>)>>>>), v>>)>>, <<"o", Obj(<<<<"p", Obj(<<<<"q", v>>>>)>>>>)>>>>)
Documents ==
  [n \in 1..(NV * NH) |-> Doc(Held(((n - 1) \div NV) + 1, Scalars0[((n - 1) % NV) + 1]))]
  \o MapSeq(SelectSeq(Flat1, LAMBDA v : ~HasSub(v.v, "\n")), LAMBDA v : Doc(Map(<<v, Str("under it")>>)))

Names0 == <<
  <<"tagged", "tag", "t">>, <<"doublequoted", "doublequote", "double", "dq", "Double">>, <<"singlequoted", "singlequote", "single", "sq">>, <<"literal", "l", "LITERAL">>,
  <<"folded", "fold", "fo">>, <<"flow", "fl">>, <<"normal", "n">> >>
Indents == <<"", "0", "1", "2", "3", "4", "7", "8", "9", "10">>

Lens == <<128, Len(Indents), 2>>
Total == Product(Lens)
X(i) == Digits0(i, Lens)

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bits(i) == SelectSeq(<<1, 2, 3, 4, 5, 6, 7>>, LAMBDA b : ((X(i)[1] - 1) \div Pow2(b - 1)) % 2 = 1)
Given0(i) == Join(MapSeq(Bits(i), LAMBDA b : Names0[b][((i + b) % Len(Names0[b])) + 1]), ",")
Wanted(i) == FoldLeft(LAMBDA a, b : a + Pow2(b - 1), 0, Bits(i))

Scenario(i) ==
  LET x == X(i)
      vals == (IF Bits(i) = <<>> THEN <<>> ELSE <<[n |-> "outputStyle", v |-> Given0(i)]>>)
              \o (IF x[2] = 1 THEN <<>> ELSE <<[n |-> "indentLevel", v |-> Indents[x[2]]]>>)
      s == [Nothing EXCEPT !.id = Num(i), !.fs = <<File("/R/w/f.yaml", Documents)>>]
  IN [text |-> TRUE] @@ WithInstr(IF x[3] = 1 THEN [s EXCEPT !.flags = vals] ELSE [s EXCEPT !.env = vals], <<>>, <<Entry("f.yaml", "", <<>>, <<>>)>>)

Init == \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* ---- what C21 says ---- *)
S == TLCEval(StyleOf(Set(sc, "outputStyle")))
Understood == phase = "start" => LET i == atoi(sc.id) IN S = IF Bits(i) = <<>> THEN 64 ELSE Wanted(i)

(* what is asked for is what is used; texts that cannot be written so are quoted as well, and what is no text is not quoted *)
RECURSIVE AsAsked(_, _, _)
AsAsked(n, p, s) ==
  /\ n.k \in {"m", "s", "d"} => p.y = s
  /\ n.k = "v" /\ n.t \in {"!!str", "!mine"} => \A b \in {1, 2, 4, 8, 16, 32, 64} : HasStyle(s, b) => HasStyle(p.y, b)
  /\ n.k = "v" /\ ~HasStyle(s, 1) /\ n.t \in Implicit => \A b \in {2, 4, 8, 16} : ~HasStyle(p.y, b)
  /\ p.k = n.k /\ Len(p.c) = Len(n.c)
  /\ \A j \in 1..Len(n.c) : AsAsked(n.c[j], p.c[j], s)
Styled == phase = "done" => exit = 0 /\ LET s == S IN \A d \in 1..Len(out[1].docs) : AsAsked(out[1].docs[d], Present(out[1].docs[d], s), s)

(* nothing of the data changes *)
Kept == phase = "done" => Len(out[1].docs) = Len(Documents) /\ \A d \in 1..Len(Documents) : Data(out[1].docs[d]) = Data(Documents[d])
=============================================================================
