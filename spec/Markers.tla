------------------------------ MODULE Markers ------------------------------
(* Format markers: %v value, %l line, %h head, %f foot comment, %k key; each may be followed by a sed command in braces.
   env is [v, l, h, f, k]. *)
EXTENDS Tree

MarkerChars == {"v", "l", "h", "f", "k"}

Clear(s) == \* text from the document is inserted without anything that looks like a marker
  SubstAll(SubstAll(SubstAll(SubstAll(SubstAll(s, "%v", ""), "%l", ""), "%h", ""), "%f", ""), "%k", "")

HasMarker(s) == \E m \in MarkerChars : HasSub(s, "%" \o m)

(* s/old/new/ and s/old/new/g with plain text, line by line; a line break at the end goes, and so does one at the
   beginning; anything that is not such a command leaves the value as it is *)
Sed(cmd, val) ==
  IF Len(cmd) < 2 \/ Ch(cmd, 1) # "s" THEN val
  ELSE LET parts == Split(From(cmd, 3), Ch(cmd, 2))
           lines == Split(TrimSuffix(val, "\n"), "\n")
           all(f(_)) == TrimPrefix(Join(MapSeq(lines, f), "\n"), "\n")
       IN IF Len(parts) # 3 \/ parts[1] = "" THEN val
          ELSE IF parts[3] = "g" THEN all(LAMBDA x : SubstAll(x, parts[1], parts[2]))
          ELSE IF parts[3] = "" THEN all(LAMBDA x : SubstFirst(x, parts[1], parts[2]))
          ELSE val

ValueOf(ch, env) ==
  CASE ch = "v" -> env.v [] ch = "l" -> env.l [] ch = "h" -> env.h [] ch = "f" -> env.f [] ch = "k" -> env.k

RECURSIVE Expand(_, _)
Expand(s, env) ==
  LET p == IndexFrom(s, 1, "%") IN
  IF p = 0 \/ p = Len(s) THEN s
  ELSE IF Ch(s, p + 1) \notin MarkerChars THEN SubSeq(s, 1, p) \o Expand(From(s, p + 1), env)
  ELSE LET val == ValueOf(Ch(s, p + 1), env)
           rest == From(s, p + 2)
           close == IndexFrom(rest, 1, "}")
           braced == HasPrefix(rest, "{") /\ close # 0 /\ ~HasSub(SubSeq(rest, 1, close), "\n")
           cmd == SubSeq(rest, 2, close - 1)
       IN SubSeq(s, 1, p - 1)
          \o (IF braced THEN (IF cmd = "" THEN val ELSE Sed(cmd, val)) \o Expand(From(rest, close + 1), env)
              ELSE val \o Expand(rest, env))

Format(s, value, line, head, foot, key) ==
  IF ~HasSub(s, "%") THEN s
  ELSE Expand(s, [v |-> Clear(value), l |-> Clear(line), h |-> Clear(head), f |-> Clear(foot), k |-> Clear(key)])

Blank(s) == Format(s, "", "", "", "", "")

(* a copy of a value that is added to a map or list: there is no original, markers expand to nothing *)
RECURSIVE Sanitized(_)
Sanitized(n) ==
  Node(n.k, n.t, Blank(n.v), TLCEval([i \in 1..Len(n.c) |-> Sanitized(n.c[i])]), Blank(n.h), Blank(n.l), Blank(n.f), "", New)

Bare(comment) == TrimPrefix(comment, "#")
=============================================================================
