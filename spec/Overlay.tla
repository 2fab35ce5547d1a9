------------------------------ MODULE Overlay ------------------------------
(* One overlay on one document.

   An overlay is [name, qs, value, action, dq, om, ip, di]: qs, ip lists of paths; dq list of groups, each a list of
   conditions [qs, value]; om "default", "ignore" or "inject"; di [has, is]; a value of kind "0" means none was given. *)
EXTENDS Actions

(* equal data: structure, text and type, not comments *)
RECURSIVE SameData(_, _)
SameData(a, b) ==
  /\ a.k = b.k /\ TreeType(a) = TreeType(b) /\ a.v = b.v /\ Len(a.c) = Len(b.c)
  /\ \A i \in 1..Len(a.c) : SameData(a.c[i], b.c[i])

ConditionHolds(c, doc, dead) ==
  LET R == Find(c.qs, doc) IN
  R # <<>> /\ (c.value.k # "0" => \A i \in 1..Len(R) : SameData(Resolve(R[i], doc, dead), c.value))

Qualifies(dq, doc, dead) ==
  \/ dq = <<>>
  \/ \E g \in 1..Len(dq) : \A i \in 1..Len(dq[g]) : ConditionHolds(dq[g][i], doc, dead)

OnIndex(ov, index) == ~ov.di.has \/ \E i \in 1..Len(ov.di.is) : ov.di.is[i] = index

(* result: [ok, doc, dead, why, hit] - hit: what happened, for coverage *)
Result(doc, dead, hit) == [ok |-> TRUE, doc |-> doc, dead |-> dead, why |-> "", hit |-> hit]
Error(doc, dead, why) == [ok |-> FALSE, doc |-> doc, dead |-> dead, why |-> why, hit |-> "error"]

(* removed subtrees matter only while aliases refer to them *)
Aliased(doc, dead) == HasAlias(doc) \/ \E i \in 1..Len(dead) : HasAlias(dead[i])
Buried(doc, new, dead) == IF Aliased(doc, dead) THEN new \o dead ELSE dead

(* a selected node that went out of the document with an earlier one can still be seen through aliases *)
AmongDead(ov, r, id) ==
  LET K == {i \in 1..Len(r.dead) : HasId(r.dead[i], id)} IN
  IF K = {} THEN r
  ELSE LET i == MinOf(K)
           o == ById(r.dead[i], id)
       IN CASE ov.action = "replace" -> [r EXCEPT !.dead = [@ EXCEPT ![i] = Put(@, id, Replace(o, ov.value))] \o o.c]
            [] ov.action = "merge" ->
                 LET T == MergeIn(<<r.doc>> \o r.dead, i + 1, id, ov.value, "") IN
                 [r EXCEPT !.doc = T[1], !.dead = Tail(T) \o <<o>>]
            [] OTHER -> r

ApplyAt(ov, r, id) == \* r: the result so far, id: the next selected node
  IF ~r.ok THEN r
  ELSE IF ~HasId(r.doc, id) THEN AmongDead(ov, r, id)
  ELSE CASE ov.action = "delete" ->
              Result(Delete(r.doc, id), Buried(r.doc, Removed(r.doc, id), r.dead), r.hit)
         [] ov.action = "replace" ->
              LET o == ById(r.doc, id) IN Result(Put(r.doc, id, Replace(o, ov.value)), Buried(r.doc, o.c, r.dead), r.hit)
         [] ov.action = "combine" ->
              LET m == Combine(ById(Detach(<<r.doc>> \o r.dead, 1, id)[1], id), ov.value) IN
              IF m.ok THEN Result(Put(r.doc, id, m.n), r.dead, r.hit) ELSE Error(r.doc, r.dead, m.why)
         [] ov.action = "merge" ->
              LET o == ById(r.doc, id) IN
              IF ~Aliased(r.doc, r.dead) THEN Result(Put(r.doc, id, Merge(o, ov.value, "")), r.dead, r.hit)
              ELSE LET T == MergeIn(<<r.doc>> \o r.dead, 1, id, ov.value, "") IN Result(T[1], <<o>> \o Tail(T), r.hit)

Missing(ov, doc, dead, dflt) ==
  LET act == IF ov.om = "default" THEN dflt ELSE ov.om IN
  IF act # "inject" \/ ov.action \in {"delete", "combine"} THEN Result(doc, dead, "ignored")
  ELSE IF CanBuild(ov.qs) THEN Result(InjectAt(doc, dead, ov.qs, ov.value), Buried(doc, <<doc>>, dead), "injected")
  ELSE IF ov.ip = <<>> THEN Result(doc, dead, "ignored")
  ELSE IF CanBuild(ov.ip) THEN Result(InjectAt(doc, dead, ov.ip, ov.value), Buried(doc, <<doc>>, dead), "injected at path")
  ELSE Error(doc, dead, "injectPath cannot be created")

Apply(ov, doc, dead, dflt) ==
  LET d == Number(doc, <<1>>)
      ids == FindIds(ov.qs, d)
      gone == TLCEval([i \in 1..Len(dead) |-> Number(dead[i], <<2, i>>)])
  IN IF ~Qualifies(ov.dq, d, dead) THEN Result(doc, dead, "not qualified")
     ELSE IF ids = <<>> THEN Missing(ov, d, dead, dflt)
     ELSE FoldLeft(LAMBDA r, id : ApplyAt(ov, r, id), Result(d, gone, ov.action), ids)
=============================================================================
