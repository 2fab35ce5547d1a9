---------------------------- MODULE MC_Settings ----------------------------
(* Every setting, given by every combination of sources: one of two values by the source that should count, the other one
   by all the others (C19). *)
EXTENDS Base

(* [setting, two values other than the default if there are as many] *)
Each == <<
  <<"outputDirectory", "out/x", "/R/y">>, <<"stdout", "true", "false">>, <<"indentLevel", "3", "5">>,
  <<"outputStyle", "flow", "double">>, <<"removeComments", "true", "false">>, <<"logLevel", "error", "info">>,
  <<"defaultOnMissingAction", "inject", "ignore">> >>

(* flag: absent, given; variable: absent, empty, given; every config file: absent, there but silent, giving it, not
   readable *)
Lens == <<Len(Each), 2, 2, 2, 3, 4, 4, 4, 4>>
Total == Product(Lens)
X(i) == Digits0(i, Lens)
IsEnv(x) == x[2] = 2
Paths0 == <<"/R/one.yaml", "/R/two.yaml", "/R/w/yot.config", "/R/home/.yot/yot.config">>
Wheres == <<"flag", "env", "cwd", "home">>
HasFlag(x) == x[4] = 2 /\ ~IsEnv(x) \* yot env takes no flags, not even --config
ConfigOf(x, j) == IF j = 1 /\ IsEnv(x) THEN 1 ELSE x[5 + j]

(* which source should count: "flag", "variable", "1" to "4", "default" *)
First(x) ==
  LET there == {j \in 1..4 : ConfigOf(x, j) > 1} IN
  CASE HasFlag(x) -> "flag"
    [] ~HasFlag(x) /\ x[5] = 3 -> "variable"
    [] ~HasFlag(x) /\ x[5] # 3 /\ there # {} /\ ConfigOf(x, MinOf(there)) = 3 -> Num(MinOf(there))
    [] OTHER -> "default"

(* the one in use cannot be read *)
Unread(x) == LET there == {j \in 1..4 : ConfigOf(x, j) > 1} IN there # {} /\ ConfigOf(x, MinOf(there)) = 4

This(x) == Each[x[1]][1 + x[3]]
That(x) == Each[x[1]][4 - x[3]]
Val(x, source) == IF First(x) = source THEN This(x) ELSE That(x)
Giving(x, source) == <<[n |-> Each[x[1]][1], v |-> Val(x, source)]>>

TheDoc == LET o == Obj(<<<<"a", Obj(<<<<"b", Str("c d")>>>>)>>, <<"l", List(<<IntV("1")>>)>>>>) IN
  Doc([o EXCEPT !.c[1].h = "# why", !.c[2].c[2].l = "# how"])
Ovs == <<Ov("merge", <<Path(<<Child("new")>>)>>, Str("x"))>>

Scenario(i) ==
  LET x == X(i)
      cs == Flat(<<1, 2, 3, 4>>, LAMBDA j :
              IF ConfigOf(x, j) = 1 THEN <<>>
              ELSE <<[where |-> Wheres[j], path |-> Paths0[j], bad |-> ConfigOf(x, j) = 4,
                      vals |-> IF ConfigOf(x, j) = 2 THEN <<>> ELSE Giving(x, Num(j))]>>)
      s == [Nothing EXCEPT !.id = Num(i),
              !.flags = IF HasFlag(x) THEN Giving(x, "flag") ELSE <<>>,
              !.env = IF x[5] = 1 THEN <<>> ELSE IF x[5] = 2 THEN <<[n |-> Each[x[1]][1], v |-> ""]>> ELSE Giving(x, "variable"),
              !.configs = cs]
  IN [text |-> TRUE] @@ IF IsEnv(x) THEN [s EXCEPT !.cmd = "env", !.asked = IF x[4] = 2 THEN Each[x[1]][1] ELSE ""]
     ELSE WithInstr([s EXCEPT !.fs = <<File("/R/w/f.yaml", <<TheDoc>>)>>], <<>>, <<Entry("f.yaml", "", Ovs, <<>>)>>)

(* the same sources once only *)
Different(i) == LET x == X(i) IN IsEnv(x) => x[6] = 1
Init == \E i \in Part(Total) : Different(i) /\ Seed(i)
Make(i) == <<Scenario(i)>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

Mine(n) == n = Each[X(atoi(sc.id))[1]][1]
Is(n) == LET x == X(atoi(sc.id)) IN IF Mine(n) /\ First(x) # "default" THEN This(x) ELSE Default(n)

Precedence == phase = "done" /\ ~Unread(X(atoi(sc.id))) => \A j \in 1..Len(NameList) : Set(sc, NameList[j]) = Is(NameList[j])
TheFile ==
  phase = "done" =>
    LET x == X(atoi(sc.id)) there == {j \in 1..4 : ConfigOf(x, j) > 1} IN
    ConfigFile(sc.configs) = IF there = {} THEN "" ELSE Paths0[MinOf(there)]
Effect ==
  phase = "done" /\ sc.cmd = "run" /\ ~Unread(X(atoi(sc.id))) =>
    LET left == out[1].docs[1] IN
    /\ exit = 0 /\ Len(out) = 1
    /\ out[1].target = (IF Is("outputDirectory") = "/R/y" THEN "/R/y/f.yaml" ELSE IF Is("outputDirectory") = "out/x" THEN "out/x/f.yaml" ELSE "output/f.yaml")
    /\ Data(left) = Data(IF Is("defaultOnMissingAction") = "inject"
                         THEN [TheDoc EXCEPT !.c[1].c = @ \o <<[Str("new") EXCEPT !.t = ""], Str("x")>>] ELSE TheDoc)
    /\ (left.c[1].c[1].h = "") = (Is("removeComments") = "true")
Refusal == phase = "done" /\ Unread(X(atoi(sc.id))) => exit = 1 /\ out = <<>>
=============================================================================
