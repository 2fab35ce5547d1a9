------------------------------ MODULE Settings ------------------------------
(* The settings in force. Each source is a list of [n |-> setting, v |-> text]; an empty environment variable does not
   count as given. configs is a list of [where, vals, path, bad], bad: the file is missing or is not YAML; the configuration in use is the one from the --config flag, else
   from the environment, else the one in the working directory, else the one in the home directory. *)
EXTENDS Strings

NameList == <<"outputDirectory", "stdout", "indentLevel", "outputStyle", "removeComments", "logLevel", "defaultOnMissingAction">>

Default(n) ==
  CASE n = "outputDirectory" -> "./output" [] n = "stdout" -> "false" [] n = "indentLevel" -> "2"
    [] n = "outputStyle" -> "[normal]" [] n = "removeComments" -> "false" [] n = "logLevel" -> "warning"
    [] n = "defaultOnMissingAction" -> "ignore"

Given(list, n) == \E i \in 1..Len(list) : list[i].n = n
Value(list, n) == list[CHOOSE i \in 1..Len(list) : list[i].n = n /\ \A j \in 1..Len(list) : list[j].n = n => j <= i].v

ConfigFrom(configs, w) == {i \in 1..Len(configs) : configs[i].where = w}
Used(configs) ==
  LET Order == <<"flag", "env", "cwd", "home">>
      H == {j \in 1..4 : ConfigFrom(configs, Order[j]) # {}}
  IN IF H = {} THEN <<>> ELSE <<configs[CHOOSE i \in ConfigFrom(configs, Order[CHOOSE j \in H : \A k \in H : j <= k]) : TRUE]>>
InUse(configs) == IF Used(configs) = <<>> THEN <<>> ELSE Used(configs)[1].vals

(* what yot env prints as the configuration file *)
ConfigFile(configs) == IF Used(configs) = <<>> THEN "" ELSE Used(configs)[1].path

Force(flags, env, configs, n) ==
  LET e == SelectSeq(env, LAMBDA x : x.v # "") c == InUse(configs) IN
  IF Given(flags, n) THEN Value(flags, n)
  ELSE IF Given(e, n) THEN Value(e, n)
  ELSE IF Given(c, n) THEN Value(c, n)
  ELSE Default(n)

Truths == {"1", "t", "T", "TRUE", "true", "True"}
Untruths == {"0", "f", "F", "FALSE", "false", "False"}
Truth(s) == s \in Truths

IndentOk(s) == s = "" \/ (IsDec(s) /\ Sign(s) = 1)

(* output styles: several may be given, each has a number and several names *)
StyleNumber(name) ==
  CASE name \in {"tagged", "tag", "t"} -> 1
    [] name \in {"doublequoted", "doublequote", "double", "dq"} -> 2
    [] name \in {"singlequoted", "singlequote", "singleqoute", "single", "sq"} -> 4
    [] name \in {"literal", "l"} -> 8
    [] name \in {"folded", "fold", "fo"} -> 16
    [] name \in {"flow", "fl"} -> 32
    [] name \in {"normal", "n"} -> 64
    [] OTHER -> 0

StyleNames(s) ==
  LET t == SubstAll(SubstAll(SubstAll(Lower(s), "[", ","), "]", ","), " ", ",") IN
  SelectSeq(Split(t, ","), LAMBDA x : x # "")
StyleOk(s) == \A i \in 1..Len(StyleNames(s)) : StyleNumber(StyleNames(s)[i]) # 0

(* one number for all: each style counts once *)
RECURSIVE StyleSum(_, _)
StyleSum(names, seen) ==
  IF names = <<>> THEN 0
  ELSE LET n == StyleNumber(Head(names)) IN
       IF n \in seen THEN StyleSum(Tail(names), seen) ELSE n + StyleSum(Tail(names), seen \cup {n})
StyleOf(s) == StyleSum(StyleNames(s), {})

Levels == {"critical", "error", "warning", "notice", "info", "debug"}
ShortLevels == {"crit", "c", "err", "e", "warn", "w", "note", "n", "i", "d", "verbose", "v"}

(* the messages that are shown are those of this number or below *)
LevelNumber(s) ==
  CASE Lower(s) \in {"critical", "crit", "c"} -> 0
    [] Lower(s) \in {"error", "err", "e"} -> 1
    [] Lower(s) \in {"warning", "warn", "w"} -> 2
    [] Lower(s) \in {"notice", "note", "n"} -> 3
    [] Lower(s) \in {"info", "i"} -> 4
    [] OTHER -> 5

(* what the command line accepts *)
FlagOk(n, v) ==
  CASE n \in {"stdout", "removeComments"} -> v \in Truths \cup Untruths
    [] n = "indentLevel" -> IsDec(v)
    [] n = "outputStyle" -> StyleOk(v) /\ v # ""
    [] n = "logLevel" -> Lower(v) \in Levels \cup ShortLevels
    [] OTHER -> TRUE

SettingsOk(flags, env, configs) ==
  /\ Used(configs) = <<>> \/ ~Used(configs)[1].bad
  /\ \A i \in 1..Len(flags) : FlagOk(flags[i].n, flags[i].v)
  /\ Given(flags, "logLevel") \/ Lower(Force(flags, env, configs, "logLevel")) \in Levels
=============================================================================
