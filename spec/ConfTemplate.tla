--------------------------- MODULE ConfTemplate ---------------------------
(* Renders the templates of a file and prints their texts. *)
EXTENDS Template, Json, IOUtils, TLCExt

VARIABLES t, text, left   \* the template, its rendering, the pieces still to be rendered at the top

Templates == ndJsonDeserialize(IOEnv.SCENARIOS)

Init == \E i \in 1..Len(Templates) : t = Templates[i] /\ text = NoText /\ left = TRUE

Next == left /\ left' = FALSE /\ t' = t /\ text' = Rendering(t) /\ PrintT("@@" \o ToJson([id |-> t.id, ok |-> text'.ok, text |-> text'.s]))

(* a later values file wins, and what only an earlier one has stays *)
LaterWins ==
  LET fs == t.values IN
  Len(fs) = 2 /\ Values(fs).ok /\ fs[1].docs[1].c # <<>> /\ fs[2].docs[1].c # <<>> =>
    LET a == fs[1].docs[1].c[1] b == fs[2].docs[1].c[1] v == Values(fs).n IN
    (a.k = "m" /\ b.k = "m") =>
      /\ \A i \in Keys(b) : b.c[i + 1].k = "v" => Go(v, <<b.c[i].v>>).n.v = b.c[i + 1].v
      /\ \A i \in Keys(a) : KeyPos(b, a.c[i].v) = 0 => Data(Go(v, <<a.c[i].v>>).n) = Data(a.c[i + 1])

Position == <<t.id, left>>
Spec == Init /\ [][Next]_<<t, text, left>>
=============================================================================
