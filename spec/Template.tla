----------------------------- MODULE Template -----------------------------
(* Values files and the rendering of templated instructions.

   A template is a list of pieces
     lit    [s, tl, tr]      text; blanks at its beginning (tl) or end (tr) are trimmed
     ref    [e]              the text of an expression
     if     [e, a, b]        a if e holds, otherwise b
     with   [e, a, b]        as if, with the value of e as dot in a
     range  [e, v, a, b]     a for every item of e, b if there is none; dot, or the variable v, is the item
     let    [v, e]           a variable
     note                    a comment
     call   [name, e]        a named template with e as dot
   An expression is [o, v, p, fs]: o = "dot", "root" ($) or "var" (the variable v); the names p below it; and functions
   [f, x, y] it is piped through. The value of an expression is a node, a missing value is null. *)
EXTENDS Actions

Nil == Scalar("!!null", "")
IsNil(n) == n.k = "v" /\ n.t = "!!null"
Good(n) == [ok |-> TRUE, n |-> n]
Wrong == [ok |-> FALSE, n |-> Nil]

(* what counts as empty, for conditions and defaults *)
Truthy(n) ==
  CASE n.k \in {"m", "s"} -> n.c # <<>>
    [] n.t = "!!null" -> FALSE
    [] n.t = "!!bool" -> BoolText(n.v)
    [] n.t = "!!int" -> Strip0(Mag(n.v)) # "0"
    [] OTHER -> n.v # ""

SortedKeys(n) == SortSeq(TLCEval([i \in 1..(Len(n.c) \div 2) |-> n.c[2 * i - 1].v]), StrLess)

(* the text of a value in the output *)
RECURSIVE Inner(_)
Inner(n) ==
  CASE n.k = "s" -> "[" \o Join(MapSeq(n.c, Inner), " ") \o "]"
    [] n.k = "m" -> LET ks == SortedKeys(n) IN
                    "map[" \o Join(MapSeq(ks, LAMBDA k : k \o ":" \o Inner(n.c[KeyPos(n, k) + 1])), " ") \o "]"
    [] n.k = "v" /\ n.t = "!!null" -> "<nil>"
    [] n.k = "v" /\ n.t = "!!bool" -> IF BoolText(n.v) THEN "true" ELSE "false"
    [] n.k = "v" /\ n.t = "!!int" -> IF Sign(n.v) = -1 THEN "-" \o Strip0(Mag(n.v)) ELSE Strip0(Mag(n.v))
    [] OTHER -> n.v

Show(n) == IF IsNil(n) THEN "<no value>" ELSE Inner(n)

Step1(n, name) ==
  IF n.k # "m" THEN Wrong
  ELSE LET p == KeyPos(n, name) IN Good(IF p = 0 THEN Nil ELSE n.c[p + 1])

RECURSIVE Walk(_, _)
Walk(n, p) ==
  IF p = <<>> THEN Good(n)
  ELSE LET r == Step1(n, Head(p)) IN IF r.ok THEN Walk(r.n, Tail(p)) ELSE Wrong

(* there is nothing below nothing, but asking a missing entry of a map for its entries is an error *)
Go(n, p) == IF IsNil(n) THEN Good(Nil) ELSE Walk(n, p)

IsText(n) == n.k = "v" /\ n.t = "!!str"
Quoted(s) == "\"" \o SubstAll(SubstAll(SubstAll(s, "\\", "\\\\"), "\"", "\\\""), "\n", "\\n") \o "\""

RECURSIVE TrimL(_)
TrimL(s) == IF s # "" /\ Ch(s, 1) \in {" ", "\t", "\n", "\r"} THEN TrimL(From(s, 2)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # "" /\ Ch(s, Len(s)) \in {" ", "\t", "\n", "\r"} THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* texts of the items of a list, for join *)
ItemTexts(n) == MapSeq(SelectSeq(n.c, LAMBDA x : ~IsNil(x)), Show)

Call(f, n) ==
  CASE f.f = "upper" -> IF IsText(n) THEN Good(Str(Upper(n.v))) ELSE Wrong
    [] f.f = "lower" -> IF IsText(n) THEN Good(Str(Lower(n.v))) ELSE Wrong
    [] f.f = "trim" -> IF IsText(n) THEN Good(Str(TrimR(TrimL(n.v)))) ELSE Wrong
    [] f.f = "quote" -> Good(Str(IF IsNil(n) THEN "" ELSE Quoted(Show(n))))
    [] f.f = "squote" -> Good(Str(IF IsNil(n) THEN "" ELSE "'" \o Show(n) \o "'"))
    [] f.f = "default" -> Good(IF Truthy(n) THEN n ELSE Str(f.x))
    [] f.f = "replace" -> IF IsText(n) THEN Good(Str(SubstAll(n.v, f.x, f.y))) ELSE Wrong
    [] f.f = "trimPrefix" -> IF IsText(n) THEN Good(Str(TrimPrefix(n.v, f.x))) ELSE Wrong
    [] f.f = "trimSuffix" -> IF IsText(n) THEN Good(Str(TrimSuffix(n.v, f.x))) ELSE Wrong
    [] f.f = "join" -> IF n.k = "s" THEN Good(Str(Join(ItemTexts(n), f.x))) ELSE Good(Str(IF IsNil(n) THEN "" ELSE Show(n)))
    [] f.f = "first" -> IF n.k = "s" THEN Good(IF n.c = <<>> THEN Nil ELSE n.c[1]) ELSE Wrong
    [] f.f = "last" -> IF n.k = "s" THEN Good(IF n.c = <<>> THEN Nil ELSE n.c[Len(n.c)]) ELSE Wrong
    [] f.f = "len" -> CASE n.k = "s" -> Good(Scalar("!!int", ToString(Len(n.c))))
                         [] n.k = "m" -> Good(Scalar("!!int", ToString(Len(n.c) \div 2)))
                         [] IsText(n) -> Good(Scalar("!!int", ToString(Len(n.v))))
                         [] OTHER -> Wrong
    [] f.f = "eq" -> IF IsText(n) THEN Good(Scalar("!!bool", IF n.v = f.x THEN "true" ELSE "false"))
                     ELSE IF IsNil(n) THEN Good(Scalar("!!bool", "false")) ELSE Wrong
    [] f.f = "not" -> Good(Scalar("!!bool", IF Truthy(n) THEN "false" ELSE "true"))
    [] f.f = "empty" -> Good(Scalar("!!bool", IF Truthy(n) THEN "false" ELSE "true"))
    [] f.f = "ternary" -> IF n.k = "v" /\ n.t = "!!bool" THEN Good(Str(IF BoolText(n.v) THEN f.x ELSE f.y)) ELSE Wrong
    [] f.f = "toString" -> Good(Str(Inner(n)))

(* env: dot, root and the variables [v, n], the latest last *)
VarOf(env, v) ==
  LET K == {i \in 1..Len(env.vars) : env.vars[i].v = v} IN env.vars[CHOOSE i \in K : \A j \in K : j <= i].n

Eval(e, env) ==
  LET base == CASE e.o = "dot" -> env.dot [] e.o = "root" -> env.root [] e.o = "var" -> VarOf(env, e.v)
  IN FoldLeft(LAMBDA r, f : IF r.ok THEN Call(f, r.n) ELSE r, Go(base, e.p), e.fs)

(* the items of a range; of a map in the order of its keys *)
Items(n) ==
  IF n.k = "s" THEN n.c
  ELSE IF n.k = "m"
       THEN LET ks == SortedKeys(n) IN TLCEval([i \in 1..Len(ks) |-> n.c[KeyPos(n, ks[i]) + 1]])
       ELSE <<>>
CanRange(n) == n.k \in {"s", "m"} \/ IsNil(n)

Text(s) == [ok |-> TRUE, s |-> s]
NoText == [ok |-> FALSE, s |-> ""]
Cat(x, y) == IF x.ok /\ y.ok THEN Text(x.s \o y.s) ELSE NoText

RECURSIVE Render(_, _, _)
RECURSIVE RenderItems(_, _, _, _, _)

(* the text of the pieces *)
Render(ps, env, defs) ==
  IF ps = <<>> THEN Text("")
  ELSE LET p == Head(ps) rest == Tail(ps) IN
       CASE p.op = "let" ->
              LET r == Eval(p.e, env) IN
              IF ~r.ok THEN NoText ELSE Render(rest, [env EXCEPT !.vars = Append(@, [v |-> p.v, n |-> r.n])], defs)
         [] p.op # "let" ->
              LET here ==
                CASE p.op = "lit" -> LET s == IF p.tl THEN TrimL(p.s) ELSE p.s IN Text(IF p.tr THEN TrimR(s) ELSE s)
                  [] p.op = "note" -> Text("")
                  [] p.op = "ref" -> LET r == Eval(p.e, env) IN IF r.ok THEN Text(Show(r.n)) ELSE NoText
                  [] p.op = "if" -> LET r == Eval(p.e, env) IN
                       IF ~r.ok THEN NoText ELSE Render(IF Truthy(r.n) THEN p.a ELSE p.b, env, defs)
                  [] p.op = "with" -> LET r == Eval(p.e, env) IN
                       IF ~r.ok THEN NoText
                       ELSE IF Truthy(r.n) THEN Render(p.a, [env EXCEPT !.dot = r.n], defs) ELSE Render(p.b, env, defs)
                  [] p.op = "range" -> LET r == Eval(p.e, env) IN
                       IF ~r.ok \/ ~CanRange(r.n) THEN NoText
                       ELSE IF Items(r.n) = <<>> THEN Render(p.b, env, defs) ELSE RenderItems(p, Items(r.n), env, defs, 1)
                  [] p.op = "call" ->
                       LET r == Eval(p.e, env) K == {i \in 1..Len(defs) : defs[i].name = p.name} IN
                       IF ~r.ok \/ K = {} THEN NoText
                       ELSE Render(defs[MinOf(K)].body, [dot |-> r.n, root |-> r.n, vars |-> <<>>], defs)
              IN IF here.ok THEN Cat(here, Render(rest, env, defs)) ELSE NoText

RenderItems(p, items, env, defs, i) ==
  IF i > Len(items) THEN Text("")
  ELSE LET e == IF p.v = "" THEN [env EXCEPT !.dot = items[i]]
                ELSE [env EXCEPT !.dot = items[i], !.vars = Append(@, [v |-> p.v, n |-> items[i]])]
           t == Render(p.a, e, defs)
       IN IF t.ok THEN Cat(t, RenderItems(p, items, env, defs, i + 1)) ELSE NoText

(* values files [docs, bad], merged from left to right; only the first document of each counts *)
Values(fs) ==
  IF \E i \in 1..Len(fs) : fs[i].bad \/ fs[i].docs = <<>> THEN Wrong
  ELSE LET ds == TLCEval([i \in 1..Len(fs) |-> fs[i].docs[1]])
           m == FoldLeft(LAMBDA a, b : Merge(a, b, ""), ds[1], Tail(ds))
       IN Good(IF m.c = <<>> THEN Nil ELSE m.c[1])

(* t: [id, ok, pieces, defs, values], ok: whether the template can be parsed *)
Rendering(t) ==
  LET v == Values(t.values) IN
  IF ~t.ok \/ ~v.ok THEN NoText ELSE Render(t.pieces, [dot |-> v.n, root |-> v.n, vars |-> <<>>], t.defs)
=============================================================================
