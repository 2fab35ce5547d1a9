----------------------------- MODULE MC_Order -----------------------------
(* Which overlays reach which document, and in which order: every overlay appends its own letter to the same text.
   The letters are in the order in which C06 says overlays apply, so every text must be in alphabetical order, and must
   have exactly the letters of the overlays that C07 says are for this document. *)
EXTENDS Base

DiPool == << <<"none">>, <<"off">>, <<"at">>, <<"at", 1>>, <<"at", 0, 2>> >> \* no overlay, one for all documents, one for these
PathPool == <<-1, 0, 1, 9>>                                                   \* -1: no such entry

(* two common overlays, two of the file, two entries of documents, a second entry for the file (0: none, 1: the same file
   again, 2: the same file by another way of writing its path, 3: another file), ad hoc overlay or not, documents *)
Lens == <<5, 5, 5, 5, 4, 4, 4, 2, 3>>
Total == Product(Lens)

L(letter, di) ==
  LET o == Ov("combine", <<Path(<<Child("s")>>)>>, Str(letter)) IN
  CASE di[1] = "none" -> <<>> [] di[1] = "off" -> <<o>> [] di[1] = "at" -> <<[o EXCEPT !.di = [has |-> TRUE, is |-> Tail(di)]]>>

Entries(letter, path) == IF path = -1 THEN <<>> ELSE <<[path |-> path, ovs |-> L(letter, <<"off">>)]>>

Scenario(i) ==
  LET x == Digits0(i, Lens)
      common == L("a", DiPool[x[1]]) \o L("b", DiPool[x[2]])
      first == Entry("f.yaml", "", L("d", DiPool[x[3]]) \o L("e", DiPool[x[4]]), Entries("g", PathPool[x[5]]) \o Entries("h", PathPool[x[6]]))
      again == Entry(IF x[7] = 4 THEN "h.yaml" ELSE IF x[7] = 3 THEN "./x/../f.yaml" ELSE "f.yaml", "", L("f", <<"at", 0, 1>>), Entries("i", 1))
      texts == [j \in 1..x[9] |-> Doc(Obj(<<<<"s", Str("-")>>, <<"n", IntV(Num(j))>>>>))]
      s == WithInstr([Nothing EXCEPT !.id = "o" \o Num(i), !.fs = <<File("/R/w/f.yaml", texts), File("/R/w/h.yaml", texts)>>, !.dirs = @ \o <<"/R/w/x">>],
                     common, IF x[7] = 1 THEN <<first>> ELSE <<first, again>>)
      c == Path(<<Child("s")>>)
  IN IF x[8] = 1 THEN s
     ELSE [s EXCEPT !.adpath = "h.yaml",
                    !.adov = [has |-> TRUE, qs |-> <<c>>, texts |-> <<PathText(c)>>, action |-> "combine", value |-> Str("c")]]

Init == \E i \in Part(Total) : Seed(i)
Make(i) == <<Scenario(i) @@ [case |-> i]>>
Spec == Init /\ [][Grow(Make) \/ InOrder \/ Replay]_vars

(* the letters for document number d (from 0) of a file, f or h *)
For(i, file, d) ==
  LET x == Digits0(i, Lens)
      On(di) == di[1] = "off" \/ (di[1] = "at" /\ d \in {di[k] : k \in 2..Len(di)})
      Same == x[7] \in {2, 3}
  IN (IF On(DiPool[x[1]]) THEN "a" ELSE "") \o (IF On(DiPool[x[2]]) THEN "b" ELSE "") \o (IF x[8] = 2 THEN "c" ELSE "")
     \o (IF file = "f" /\ On(DiPool[x[3]]) THEN "d" ELSE "") \o (IF file = "f" /\ On(DiPool[x[4]]) THEN "e" ELSE "")
     \o (IF d \in {0, 1} /\ ((file = "f" /\ Same) \/ (file = "h" /\ x[7] = 4)) THEN "f" ELSE "")
     \o (IF file = "f" /\ PathPool[x[5]] = d THEN "g" ELSE "") \o (IF file = "f" /\ PathPool[x[6]] = d THEN "h" ELSE "")
     \o (IF d = 1 /\ ((file = "f" /\ Same) \/ (file = "h" /\ x[7] = 4)) THEN "i" ELSE "")

Order ==
  phase = "done" =>
    /\ exit = 0
    /\ \A k \in 1..Len(out) :
         LET file == IF HasSuffix(out[k].in, "f.yaml") THEN "f" ELSE "h" IN
         \A d \in 1..Len(out[k].docs) :
           /\ out[k].docs[d].c[1].c[2].v = "-" \o For(sc.case, file, d - 1)
           /\ out[k].docs[d].c[1].c[4].v = Num(d)

(* a file is written once, whatever the number of its entries *)
Once == phase = "done" => LET x == Digits0(sc.case, Lens) IN Len(out) = IF x[7] = 4 \/ x[8] = 2 THEN 2 ELSE 1
=============================================================================
