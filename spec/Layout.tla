------------------------------ MODULE Layout ------------------------------
(* Which files a run reads, which overlays each gets, and where its result goes. Paths are texts.
   fs is a list of files [path, docs, bad] with absolute paths, dirs a list of directories without files. *)
EXTENDS Decode

RECURSIVE CleanSegs(_, _, _)
CleanSegs(segs, acc, rooted) ==
  IF segs = <<>> THEN acc
  ELSE LET s == Head(segs) IN
       CleanSegs(Tail(segs),
         IF s = "" \/ s = "." THEN acc
         ELSE IF s # ".." THEN Append(acc, s)
         ELSE IF acc # <<>> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1)
         ELSE IF rooted THEN acc ELSE Append(acc, s), rooted)

IsAbs(p) == HasPrefix(p, "/")
Segs(p) == CleanSegs(Split(p, "/"), <<>>, IsAbs(p))
Clean(p) ==
  LET t == Join(Segs(p), "/") IN IF IsAbs(p) THEN "/" \o t ELSE IF t = "" THEN "." ELSE t
JoinPath(a, b) ==
  IF a = "" /\ b = "" THEN "" ELSE IF a = "" THEN Clean(b) ELSE IF b = "" THEN Clean(a) ELSE Clean(a \o "/" \o b)
Base(p) == LET s == Segs(p) IN IF s = <<>> THEN (IF IsAbs(p) THEN "/" ELSE ".") ELSE s[Len(s)]
HasExt(p) == LET parts == Split(p, "/") IN HasSub(parts[Len(parts)], ".")
From0(p, cwd) == IF IsAbs(p) THEN Clean(p) ELSE JoinPath(cwd, p)

Below(p, dir) == HasPrefix(p, IF dir = "/" THEN dir ELSE dir \o "/")
IsFile(fs, p) == \E i \in 1..Len(fs) : fs[i].path = p
IsDir(fs, dirs, p) ==
  \/ \E i \in 1..Len(fs) : Below(fs[i].path, p)
  \/ \E i \in 1..Len(dirs) : dirs[i] = p \/ Below(dirs[i], p)

RECURSIVE SegsLess(_, _)
SegsLess(a, b) ==
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] = b[1] THEN SegsLess(Tail(a), Tail(b)) ELSE StrLess(a[1], b[1])

IsYaml(p) == HasSuffix(p, ".yaml") \/ HasSuffix(p, ".yml")

(* the YAML files below a directory: in name order, a directory's files at the place of its name *)
FilesBelow(fs, dir) ==
  LET here == SelectSeq(TLCEval([i \in 1..Len(fs) |-> fs[i].path]), LAMBDA p : Below(p, dir) /\ IsYaml(p))
      rel == TLCEval([i \in 1..Len(here) |-> SubSeq(Segs(here[i]), Len(Segs(dir)) + 1, Len(Segs(here[i])))])
  IN SortSeq(rel, SegsLess)

(* one entry of yamlFiles with its path in place: [ok, v] with the list of files it stands for *)
Expand1(fs, dirs, cwd, base, e) ==
  IF e.path = "-" THEN Yes(<<e>>)
  ELSE LET p == IF IsAbs(e.path) THEN Clean(e.path) ELSE JoinPath(base, e.path)
           q == IF p = "" THEN "." ELSE p
           real == From0(q, cwd)
       IN IF IsFile(fs, real) THEN Yes(<<[e EXCEPT !.path = q]>>)
          ELSE IF ~IsDir(fs, dirs, real) THEN No
          ELSE IF HasExt(e.out) THEN No
          ELSE LET rel == FilesBelow(fs, real) IN
               Yes(TLCEval([i \in 1..Len(rel) |-> [e EXCEPT !.path = JoinPath(q, Join(rel[i], "/"))]]))

ExpandAll(fs, dirs, cwd, base, es) ==
  LET xs == TLCEval([i \in 1..Len(es) |-> Expand1(fs, dirs, cwd, base, es[i])]) IN
  IF \A i \in 1..Len(xs) : xs[i].ok THEN Yes(Flat(xs, LAMBDA x : x.v)) ELSE No

(* entries for the same file become one *)
RECURSIVE Unite(_, _)
Unite(done, es) ==
  IF es = <<>> THEN done
  ELSE LET e == Head(es)
           K == {i \in 1..Len(done) : done[i].path = e.path}
       IN IF K = {} THEN Unite(Append(done, e), Tail(es))
          ELSE LET i == MinOf(K) IN
               Unite([done EXCEPT ![i].ovs = @ \o e.ovs, ![i].docs = @ \o e.docs,
                                  ![i].out = IF e.out # "" THEN e.out ELSE @], Tail(es))

DirSegs(p) == LET s == Split(p, "/") IN SubSeq(s, 1, Len(s) - 1)

RECURSIVE CommonLen(_, _)
CommonLen(ds, n) ==
  IF \A i \in 1..Len(ds) : Len(ds[i]) > n /\ ds[i][n + 1] = ds[1][n + 1] THEN CommonLen(ds, n + 1) ELSE n

(* place of a file without outputPath: relative to the deepest directory common to all inputs *)
Relative(p, paths) ==
  IF p = "-" THEN "-"
  ELSE LET ds == TLCEval([i \in 1..Len(paths) |-> DirSegs(paths[i])])
           n == CommonLen(ds, 0)
           s == Split(p, "/")
       IN Join(SubSeq(s, n + 1, Len(s)), "/")

Place(e, paths) ==
  IF e.out = "" THEN Relative(e.path, paths) ELSE IF HasExt(e.out) THEN e.out ELSE JoinPath(e.out, Base(e.path))

(* where a result is written, as the path that is reported *)
Target(out, outdir) == IF IsAbs(out) THEN out ELSE JoinPath(outdir, out)

Docs(fs, stdin, cwd, p) ==
  IF p = "-" THEN stdin
  ELSE LET K == {i \in 1..Len(fs) : fs[i].path = From0(p, cwd)} IN fs[MinOf(K)]

(* the overlays for document number i (from 0) of a file, in order *)
Queue(common, e, i) ==
  SelectSeq(common \o e.ovs, LAMBDA o : OnIndex(o, i)) \o
  Flat(SelectSeq(e.docs, LAMBDA d : d.path = i), LAMBDA d : d.ovs)

(* the whole plan of a run: [ok, v] with a list of [in, place, ovs, docs] *)
Plan(instr, fs, dirs, stdin, cwd, base, adhoc) ==
  LET listed == ExpandAll(fs, dirs, cwd, base, instr.files)
      extra == IF adhoc = "" THEN Yes(<<>>)
               ELSE ExpandAll(fs, dirs, cwd, base,
                      <<[path |-> adhoc, out |-> IF adhoc = "-" THEN "stdin.yaml" ELSE "", ovs |-> <<>>, docs |-> <<>>]>>)
  IN IF ~listed.ok \/ ~extra.ok THEN No
     ELSE LET es == Unite(<<>>, listed.v \o extra.v)
              paths == SelectSeq(TLCEval([i \in 1..Len(es) |-> es[i].path]), LAMBDA p : p # "-")
              src == TLCEval([i \in 1..Len(es) |-> Docs(fs, stdin, cwd, es[i].path)])
          IN IF \E i \in 1..Len(es) : src[i].bad THEN No
             ELSE Yes(TLCEval([i \in 1..Len(es) |->
                    [in |-> es[i].path, place |-> Place(es[i], paths), ovs |-> es[i].ovs, docs |-> es[i].docs,
                     trees |-> src[i].docs]]))
=============================================================================
