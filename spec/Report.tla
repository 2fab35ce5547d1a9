------------------------------ MODULE Report ------------------------------
(* What a run comes to, as the harness compares it with the implementation. *)
EXTENDS Yot, Json

Outcome ==
  LET s == TLCEval(StyleOf(Set(sc, "outputStyle"))) IN
  [id |-> sc.id, 
   settings |-> IF sc.cmd # "env" THEN <<>>
                ELSE TLCEval(MapSeq(SelectSeq(NameList \o <<"configFile">>, LAMBDA n : sc.asked \in {"", n}),
                       LAMBDA n : [n |-> n, v |-> IF n = "configFile" THEN ConfigFile(sc.configs) ELSE Set(sc, n)])), exit |-> exit, rejected |-> ~taken,
   stdout |-> Truth(Set(sc, "stdout")), indent |-> Set(sc, "indentLevel"), style |-> s, styleText |-> Set(sc, "outputStyle"),
   \* -1: no level is in force
   level |-> IF SettingsOk(IF sc.cmd = "env" THEN <<>> ELSE sc.flags, sc.env, sc.configs) THEN LevelNumber(Set(sc, "logLevel")) ELSE 0 - 1,
   \* what may be written: all of it if the exit status is 0
   out |-> FlattenSeq(TLCEval([f \in 1..Len(files) |->
             IF files[f].st = "emitted" /\ CanWrite(files[f]) /\ Left(files[f]) # <<>>
             THEN LET r == Finished(f) IN <<[in |-> r.in, target |-> r.target, docs |-> MapSeq(r.docs, LAMBDA d : Present(d, s))]>>
             ELSE <<>>])),
   files |-> TLCEval([f \in 1..Len(files) |-> [in |-> files[f].in, st |-> files[f].st, why |-> files[f].why, hits |-> files[f].hits]])]

Tell(r) == phase = "done" /\ PrintT("@@" \o ToJson(r)) /\ phase' = "reported" /\ UNCHANGED <<sc, files, chan, out, exit, taken>>

(* where every behaviour is a line, its length tells the states apart *)
Position == <<IF phase = "seed" THEN sc ELSE sc.id, TLCGet("level")>>
=============================================================================
