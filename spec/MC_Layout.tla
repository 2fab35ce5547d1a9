----------------------------- MODULE MC_Layout -----------------------------
(* Two entries with every path and outputPath, and every output directory. What each path stands for is written down
   here, name by name, instead of being computed from the texts (C13, C14). *)
EXTENDS Base

I == "/R/w/i/"
AllOf == <<I \o "a.yaml", I \o "b.yml", I \o "d/a.yaml", I \o "d/c.yaml", I \o "d/e/a.yaml">>
InD == SubSeq(AllOf, 3, 5)

(* [text, the files it stands for, TRUE if it is a directory]; no files and no directory: there is nothing *)
Means == <<
  <<"a.yaml", <<I \o "a.yaml">>, FALSE>>,
  <<"d/a.yaml", <<I \o "d/a.yaml">>, FALSE>>,
  <<"./d/../d//c.yaml", <<I \o "d/c.yaml">>, FALSE>>,
  <<"d", InD, TRUE>>,
  <<"d/", InD, TRUE>>,
  <<"../i/d/e", <<I \o "d/e/a.yaml">>, TRUE>>,
  <<".", AllOf, TRUE>>,
  <<"../a.yaml", <<"/R/w/a.yaml">>, FALSE>>,
  <<"/R/z/a.yaml", <<"/R/z/a.yaml">>, FALSE>>,
  <<"/R/w/i/d/e/", <<I \o "d/e/a.yaml">>, TRUE>>,
  <<"d/n.txt", <<I \o "d/n.txt">>, FALSE>>,
  <<"g", <<>>, TRUE>>,
  <<"no.yaml", <<>>, FALSE>> >>

(* outputPath: [text, TRUE if it names a file, TRUE if absolute] *)
Outs == <<
  <<"", FALSE, FALSE>>, <<"o.yaml", TRUE, FALSE>>, <<"x", FALSE, FALSE>>, <<"x/p.yaml", TRUE, FALSE>>,
  <<"/R/q/r.yaml", TRUE, TRUE>>, <<"/R/q", FALSE, TRUE>> >>

(* output directory: [flag, the directory] *)
Places == <<<<"", "output">>, <<"out", "out">>, <<"/R/t", "/R/t">>>>

Lens == <<Len(Means), Len(Outs), Len(Means), Len(Outs), Len(Places)>>
Total == Product(Lens)
X(i) == Digits0(i, Lens)

S(v) == Doc(Obj(<<<<"s", Str(v)>>>>))
Letter(k) == <<"p", "q">>[k]
Add(k) == Ov("combine", <<Path(<<Child("s")>>)>>, Str(Letter(k)))
Texts0 == AllOf \o <<"/R/w/a.yaml", "/R/z/a.yaml", I \o "d/n.txt", I \o "n.json", I \o "o-yaml", I \o "d/yml",
                     I \o "d/e/x.yaml.bak", I \o "d/y.YAML">>

Scenario(i) ==
  LET x == X(i)
      s == [Nothing EXCEPT !.id = Num(i), !.fs = MapSeq(Texts0, LAMBDA p : File(p, <<S(p)>>)),
                           !.dirs = @ \o <<"/R/w/i/g">>,
                           !.flags = IF x[5] = 1 THEN <<>> ELSE <<[n |-> "outputDirectory", v |-> Places[x[5]][1]]>>]
      es == [k \in 1..2 |-> Entry(Means[x[2 * k - 1]][1], Outs[x[2 * k]][1], <<Add(k)>>, <<>>)]
  IN [WithInstr(s, <<>>, es) EXCEPT !.instr.dir = "/R/w/i"]

Init == \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

Here(k) == X(atoi(sc.id))[k]
Stands(k) == LET m == Means[Here(2 * k - 1)] IN {m[2][j] : j \in 1..Len(m[2])}
Out(k) == Outs[Here(2 * k)]
Good(k) == LET m == Means[Here(2 * k - 1)] IN (m[2] # <<>> \/ m[3]) /\ (m[3] => ~Out(k)[2])

Taken == phase = "done" => (taken <=> Good(1) /\ Good(2)) /\ (exit = 0 <=> taken)

(* every file once, with the overlays of all the entries that stand for it *)
EachOnce ==
  phase = "done" /\ exit = 0 =>
    /\ {out[j].in : j \in 1..Len(out)} = Stands(1) \cup Stands(2)
    /\ \A j \in 1..Len(out) : \A k \in 1..Len(out) : j # k => out[j].in # out[k].in
    /\ \A j \in 1..Len(out) :
         Data(out[j].docs[1]) = Data(S(out[j].in \o (IF out[j].in \in Stands(1) THEN "p" ELSE "") \o (IF out[j].in \in Stands(2) THEN "q" ELSE "")))

(* in the order of the entries, and of the names within a directory *)
Rank(p) == IF p \in Stands(1) THEN 1 ELSE 2
InTheirOrder ==
  phase = "done" /\ exit = 0 =>
    \A j, k \in 1..Len(out) : j < k => Rank(out[j].in) < Rank(out[k].in) \/ (Rank(out[j].in) = Rank(out[k].in) /\
      LET m == Means[Here(2 * Rank(out[j].in) - 1)][2]
          At0(p) == CHOOSE n \in 1..Len(m) : m[n] = p
      IN At0(out[j].in) < At0(out[k].in))

Dirs == <<"/R/w/i/d/e/", "/R/w/i/d/", "/R/w/i/", "/R/w/", "/R/z/", "/R/">>
BaseOf(p) == LET s == Split(p, "/") IN s[Len(s)]
Deepest(ins) == Dirs[MinOf({n \in 1..Len(Dirs) : \A p \in ins : HasPrefix(p, Dirs[n])})]
Should(p) ==
  LET given == IF p \in Stands(2) /\ Out(2)[1] # "" THEN Out(2) ELSE IF p \in Stands(1) THEN Out(1) ELSE Outs[1]
      local == IF given[1] = "" THEN From(p, Len(Deepest(Stands(1) \cup Stands(2))) + 1)
               ELSE IF given[2] THEN given[1] ELSE given[1] \o "/" \o BaseOf(p)
  IN IF given[3] THEN local ELSE Places[Here(5)][2] \o "/" \o local
Where0 == phase = "done" /\ exit = 0 => \A j \in 1..Len(out) : out[j].target = Should(out[j].in)
=============================================================================
