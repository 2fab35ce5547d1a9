------------------------------- MODULE Yot -------------------------------
(* A run of yot: instructions and files are read, every file's overlays are applied one after the other (the files
   independently of each other), finished files go to the writer in the order they finish.

   A scenario is a record
     cmd       "run", or "env": print the settings
     cwd       working directory
     cli       whether the command line itself is acceptable
     instr     [has, bad, docs, dir]  instructions file
     qt        what is known about the path texts in it
     fs, dirs, stdin                  inputs, see Layout
     adpath, adov [has, qs, action, value]   command line path and overlay
     flags, env, configs              sources of the settings, see Settings *)
EXTENDS Output

VARIABLES sc,     \* the scenario
          phase,  \* "start", "run", "done"
          files,  \* the files of the run
          chan,   \* files handed to the writer, not yet written
          out,    \* what was written, in order
          exit,   \* exit status, -1 while running
          taken   \* whether the instructions and inputs were accepted

vars == <<sc, phase, files, chan, out, exit, taken>>

Set(s, n) == Force(s.flags, s.env, s.configs, n)
OnMissingDefault(s) == IF Lower(Set(s, "defaultOnMissingAction")) = "inject" THEN "inject" ELSE "ignore"

AdHocOverlay(s) ==
  IF ~s.adov.has THEN <<>>
  ELSE <<[name |-> "", qs |-> s.adov.qs, value |-> Copy(Resolve(s.adov.value, s.adov.value, <<>>)),
          action |-> s.adov.action, dq |-> <<>>, om |-> "default", ip |-> <<>>, di |-> [has |-> FALSE, is |-> <<>>]]>>

Read(s) == IF ~s.instr.has THEN Yes(NoInstructions) ELSE IF s.instr.bad THEN No ELSE Instructions(s.qt, s.instr.docs)

ThePlan(s) ==
  LET r == Read(s) IN
  IF ~s.cli \/ ~SettingsOk(s.flags, s.env, s.configs) \/ ~r.ok THEN No
  ELSE Plan(r.v, s.fs, s.dirs, s.stdin, s.cwd, IF s.instr.has THEN s.instr.dir ELSE "", s.adpath)

Common(s) == LET r == Read(s) IN r.v.common \o AdHocOverlay(s)

FileOf(s, common, p) ==
  LET strip == Truth(Set(s, "removeComments")) IN
  [in |-> p.in, place |-> p.place, st |-> "run", why |-> "", hits |-> <<>>,
   docs |-> TLCEval([i \in 1..Len(p.trees) |-> [tree |-> IF strip THEN NoComments(p.trees[i]) ELSE p.trees[i], dead |-> <<>>]]),
   q |-> FlattenSeq(TLCEval([i \in 1..Len(p.trees) |->
           LET q == Queue(common, p, i - 1) IN [j \in 1..Len(q) |-> [d |-> i, ov |-> q[j]]]]))]

(* yot env only prints the settings in force *)
ShowSettings ==
  /\ phase = "start" /\ sc.cmd = "env"
  /\ phase' = "done" /\ exit' = IF SettingsOk(<<>>, sc.env, sc.configs) THEN 0 ELSE 1
  /\ UNCHANGED <<sc, files, chan, out, taken>>

Start ==
  /\ phase = "start" /\ sc.cmd = "run"
  /\ LET p == ThePlan(sc) IN
     /\ taken' = p.ok
     /\ IF p.ok
        THEN LET c == Common(sc) IN
             /\ files' = TLCEval([i \in 1..Len(p.v) |-> FileOf(sc, c, p.v[i])])
             /\ phase' = "run" /\ exit' = exit
        ELSE files' = <<>> /\ phase' = "done" /\ exit' = 1
  /\ UNCHANGED <<sc, chan, out>>

Step(f) ==
  /\ phase = "run" /\ files[f].st = "run" /\ files[f].q # <<>>
  /\ LET w == Head(files[f].q)
         d == files[f].docs[w.d]
         r == Apply(w.ov, d.tree, d.dead, OnMissingDefault(sc))
     IN files' = [files EXCEPT ![f].q = Tail(@),
                               ![f].docs[w.d] = [tree |-> r.doc, dead |-> r.dead],
                               ![f].st = IF r.ok THEN "run" ELSE "failed",
                               ![f].why = r.why,
                               ![f].hits = Append(@, r.hit)]
  /\ UNCHANGED <<sc, phase, chan, out, exit, taken>>

Emit(f) ==
  /\ phase = "run" /\ files[f].st = "run" /\ files[f].q = <<>>
  /\ files' = [files EXCEPT ![f].st = "emitted"]
  /\ chan' = Append(chan, f)
  /\ UNCHANGED <<sc, phase, out, exit, taken>>

(* once a file failed, the others may be given up when they are complete *)
Drop(f) ==
  /\ phase = "run" /\ files[f].st = "run" /\ files[f].q = <<>>
  /\ \E g \in 1..Len(files) : files[g].st = "failed"
  /\ files' = [files EXCEPT ![f].st = "dropped"]
  /\ UNCHANGED <<sc, phase, chan, out, exit, taken>>

(* the documents that are left, as data: aliases replaced by what they stand for. Those that stay aliases in the output,
   since their anchor comes before them in it, are marked. *)
Left(file) ==
  LET ds == SelectSeq(file.docs, LAMBDA d : d.tree.c # <<>>) IN
  TLCEval([i \in 1..Len(ds) |->
    IF HasAlias(ds[i].tree)
    THEN LET doc == Number(ds[i].tree, <<1>>) IN Flagged(doc, Staying(doc), doc, ds[i].dead)
    ELSE ds[i].tree])

(* an overlay without a value leaves a node of no kind, which can be written as null only if it has no comment, once the
   comments are where they go; one after an entry is not its key's *)
RECURSIVE Writable(_, _)
Writable(m, s) ==
  LET n == WithPlaces(m, s) IN
  \A i \in 1..Len(n.c) :
    /\ n.c[i].k = "0" => n.c[i].h = "" /\ n.c[i].l = "" /\ (n.c[i].f = "" \/ (n.k = "m" /\ i % 2 = 1))
    /\ Writable(n.c[i], s)

Presentable(s) == IndentOk(Set(s, "indentLevel")) /\ StyleOk(Set(s, "outputStyle"))

(* something else is where the file or one of its directories would be *)
Blocked(file) ==
  LET t == From0(Target(file.place, Set(sc, "outputDirectory")), sc.cwd) IN
  \/ IsDir(sc.fs, sc.dirs, t)
  \/ \E i \in 1..Len(sc.fs) : Below(t, sc.fs[i].path)

CanWrite(file) ==
  LET left == Left(file) IN
  /\ Presentable(sc)
  /\ \A i \in 1..Len(left) : Writable(left[i], StyleOf(Set(sc, "outputStyle")))
  /\ left = <<>> \/ (IF Truth(Set(sc, "stdout")) THEN ~sc.full ELSE ~Blocked(file))

Finished(f) ==
  [f |-> f, in |-> files[f].in, place |-> files[f].place,
   target |-> Target(files[f].place, Set(sc, "outputDirectory")), docs |-> Left(files[f])]

(* the first file that cannot be written ends the writing *)
Write ==
  /\ phase = "run" /\ chan # <<>> /\ exit = -1
  /\ LET f == Head(chan) IN
     IF CanWrite(files[f])
     THEN /\ out' = IF Left(files[f]) = <<>> THEN out ELSE Append(out, Finished(f))
          /\ UNCHANGED exit
     ELSE out' = out /\ exit' = 1
  /\ chan' = Tail(chan)
  /\ UNCHANGED <<sc, phase, files, taken>>

Finish ==
  /\ phase = "run"
  /\ IF exit = 1 THEN TRUE ELSE chan = <<>> /\ \A f \in 1..Len(files) : files[f].st # "run"
  /\ phase' = "done"
  /\ exit' = IF exit = 1 \/ \E f \in 1..Len(files) : files[f].st = "failed" THEN 1 ELSE 0
  /\ UNCHANGED <<sc, files, chan, out, taken>>

Next ==
  \/ Start \/ ShowSettings \/ Write \/ Finish
  \/ \E f \in 1..Len(files) : Step(f) \/ Emit(f) \/ Drop(f)

(* one of the schedules: the first file that can move *)
InOrder ==
  \/ Start \/ ShowSettings \/ Write
  \/ LET R == {f \in 1..Len(files) : files[f].st = "run"} IN
     /\ phase = "run" /\ (chan = <<>> \/ exit = 1)
     /\ IF R = {} THEN Finish ELSE LET f == MinOf(R) IN Step(f) \/ Emit(f)

Begin(s) == sc = s /\ phase = "start" /\ files = <<>> /\ chan = <<>> /\ out = <<>> /\ exit = -1 /\ taken = FALSE

(* ---- what holds in every state ---- *)
Trees == \A f \in 1..Len(files) : \A d \in 1..Len(files[f].docs) : WellFormed(files[f].docs[d].tree)

(* nothing is written of a file that is not complete *)
OnlyComplete == \A i \in 1..Len(out) : files[out[i].f].st = "emitted" /\ files[out[i].f].q = <<>>

OnlyOnce == \A i, j \in 1..Len(out) : i # j => out[i].f # out[j].f

ExitMeansAll ==
  phase = "done" /\ sc.cmd = "run" =>
    (exit = 0 <=> /\ taken /\ (files # <<>> => Presentable(sc))
                  /\ \A f \in 1..Len(files) : files[f].st = "emitted" /\ (Left(files[f]) # <<>> =>
                       \E i \in 1..Len(out) : out[i].f = f))

NothingOnReject == phase = "done" /\ ~taken => out = <<>> /\ files = <<>>

(* presentation does not change the data *)
SameWhenRead ==
  phase = "done" /\ out # <<>> =>
    LET s == TLCEval(StyleOf(Set(sc, "outputStyle"))) IN
    \A i \in 1..Len(out) : \A d \in 1..Len(out[i].docs) : Faithful(out[i].docs[d], s)

(* two inputs without outputPath have different targets *)
Apart ==
  phase = "run" /\ chan = <<>> /\ (\A f \in 1..Len(files) : files[f].hits = <<>>) =>
    LET ins == TLCEval([k \in 1..Len(files) |-> files[k].in])
        Free(i) == files[i].place = Relative(ins[i], ins)
    IN \A i, j \in 1..Len(files) : i # j /\ Free(i) /\ Free(j) => files[i].place # files[j].place
=============================================================================
