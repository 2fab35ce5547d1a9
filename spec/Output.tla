------------------------------ MODULE Output ------------------------------
(* How the documents of a file are presented. Styles are numbers as in Settings; a presented node is
   [k, t, v, c, h, l, f, y] with its style y. Presentation never changes the data (Faithful). *)
EXTENDS Layout, Settings

HasStyle(s, bit) == (s \div bit) % 2 = 1
WithoutStyles(s, bits) == s - FoldLeft(LAMBDA a, b : a + (IF HasStyle(s, b) THEN b ELSE 0), 0, bits)
Quoting == <<2, 4, 8, 16>>

Implicit == {"!!null", "!!bool", "!!int", "!!float", "!!timestamp", "!!merge"}

(* texts that the encoder cannot write such that they read the same, unless they are quoted *)
StartsBlock(ch) == ch \in {" ", "\t", "\n", LineSep, ParaSep}
NeedsQuotes(v, s) ==
  LET block == HasStyle(s, 8) \/ HasStyle(s, 16) \/ HasSub(v, "\n")
      folded == HasStyle(s, 16) /\ ~HasStyle(s, 8)
  IN \/ v = "<<"
     \/ block /\ v # "" /\ StartsBlock(Ch(v, 1))
     \/ folded /\ ((\E ch \in {" ", "\t", LineSep, ParaSep} : HasSub(v, "\n" \o ch)) \/ HasSuffix(v, "\n\n"))

(* a quoted or block scalar without a tag would be read back as a string *)
ScalarStyle(n, s) ==
  LET t == TagOf(n)
      bare == IF t \in Implicit /\ ~HasStyle(s, 1) THEN WithoutStyles(s, Quoting) ELSE s
  IN IF t \in Implicit
     THEN IF t = "!!timestamp" /\ HasStyle(s, 32) /\ ~HasStyle(s, 1) /\ HasSub(n.v, ":") THEN bare + 1 ELSE bare
     ELSE IF ~HasStyle(s, 2) /\ ~HasStyle(s, 4) /\ NeedsQuotes(n.v, s) THEN s + 2 ELSE s
ScalarText(n, s) == IF n.v = "" /\ TagOf(n) = "!!null" /\ HasStyle(s, 32) THEN "null" ELSE n.v

(* in tagged style every node shows its tag *)
ShownTag(n, s) ==
  IF n.t # "" \/ ~HasStyle(s, 1) THEN n.t
  ELSE CASE n.k = "m" -> "!!map" [] n.k = "s" -> "!!seq" [] n.k = "v" -> TagOf(n) [] OTHER -> ""

(* Comments of a map or list and of its key move to where they neither come between a key and its value nor to
   another value. Placed(s, k, v) is the pair of the key and the value with their comments in place; the "key" of the
   root of a document is the document, a list item has none (own). *)
Both(a, sep, b) == IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o sep \o b
Placed(s, k, v) ==
  IF v.k \notin {"m", "s"}
  THEN IF k.l # "" /\ v.l # "" THEN <<[k EXCEPT !.l = ""], [v EXCEPT !.l = k.l \o " " \o v.l]>> ELSE <<k, v>>
  ELSE LET line == Both(k.l, " ", v.l)
           foot == Both(v.f, "\n", k.f)
           key == [k EXCEPT !.l = "", !.f = foot]
           val == [v EXCEPT !.l = "", !.f = ""]
       IN IF v.c = <<>> THEN <<key, [val EXCEPT !.l = line]>>
          ELSE IF HasStyle(s, 1) \/ HasStyle(s, 32) \/ v.a # "" \/ k.k = "d"
               THEN <<[key EXCEPT !.h = Both(k.h, "\n", line)], val>>
               ELSE <<[key EXCEPT !.l = line], val>>

OwnPlaced(v) ==
  IF v.k \notin {"m", "s"} THEN v
  ELSE IF v.c = <<>> THEN v
       ELSE [v EXCEPT !.h = Both(Both(v.h, "\n", v.l), "\n", v.f), !.l = "", !.f = ""]

WithPlaces(n, s) ==
  CASE n.k = "d" /\ n.c # <<>> -> LET p == Placed(s, n, n.c[1]) IN [p[1] EXCEPT !.c = <<p[2]>>]
    [] n.k = "s" -> [n EXCEPT !.c = MapSeq(n.c, OwnPlaced)]
    [] n.k = "m" -> [n EXCEPT !.c = TLCEval([i \in 1..Len(n.c) |->
                       IF i % 2 = 1 THEN Placed(s, n.c[i], n.c[i + 1])[1] ELSE Placed(s, n.c[i - 1], n.c[i])[2]])]
    [] OTHER -> n

(* an empty null as a key would be written as an empty string *)
SpelledKeys(n) ==
  IF n.k # "m" THEN n
  ELSE [n EXCEPT !.c = TLCEval([i \in 1..Len(n.c) |->
          IF i % 2 = 1 /\ n.c[i].k = "v" /\ n.c[i].v = "" /\ TagOf(n.c[i]) = "!!null" THEN [n.c[i] EXCEPT !.v = "null"] ELSE n.c[i]])]

(* in tagged style a missing value is spelled out as well *)
SpelledOut(n, s) == IF n.k = "0" /\ HasStyle(s, 1) /\ n.h = "" /\ n.l = "" /\ n.f = "" THEN [n EXCEPT !.k = "v", !.t = "!!null", !.v = "null"] ELSE n

RECURSIVE Present(_, _)
Present(m, s) ==
  LET n == SpelledKeys(WithPlaces(SpelledOut(m, s), s)) IN
  [k |-> n.k, a |-> n.a, t |-> ShownTag(n, s), v |-> IF n.k = "v" THEN ScalarText(n, s) ELSE n.v,
   c |-> TLCEval([i \in 1..Len(n.c) |-> Present(n.c[i], s)]), h |-> n.h, l |-> n.l, f |-> n.f,
   y |-> CASE n.k = "v" -> ScalarStyle(n, s) [] n.k = "0" -> 0 [] OTHER -> s]

(* what a reader makes of a presented node *)
RECURSIVE ReadBack(_)
ReadBack(p) ==
  LET quoted == \E i \in 1..Len(Quoting) : HasStyle(p.y, Quoting[i]) IN
  [k |-> IF p.k = "0" THEN "v" ELSE p.k,
   t |-> IF p.k = "0" THEN "!!null" ELSE IF p.k = "v" /\ quoted /\ ~HasStyle(p.y, 1) /\ (p.t = "" \/ p.t \in Implicit) THEN "!!str"
         ELSE IF p.k = "v" THEN TagOf(p) ELSE ShownTag(p, 1),
   v |-> IF p.k = "v" /\ p.v = "null" THEN "" ELSE p.v, c |-> MapSeq(p.c, ReadBack)]

RECURSIVE Meaning(_)
Meaning(n) ==
  [k |-> IF n.k = "0" THEN "v" ELSE n.k, t |-> IF n.k = "0" THEN "!!null" ELSE IF n.k = "v" THEN TagOf(n) ELSE ShownTag(n, 1),
   v |-> IF n.k = "v" /\ n.v = "null" THEN "" ELSE n.v, c |-> MapSeq(n.c, Meaning)]

Faithful(n, s) == ReadBack(Present(n, s)) = Meaning(n)
=============================================================================
