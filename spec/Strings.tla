------------------------------ MODULE Strings ------------------------------
(* Text operators. TLC evaluates Len, SubSeq and \o on strings, a character is a string of length one. *)
EXTENDS Integers, Sequences, TLC, SequencesExt

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))

HasAt(s, i, p) == i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p
HasPrefix(s, p) == HasAt(s, 1, p)
HasSuffix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

(* first position >= i where p occurs in s, 0 if none *)
IndexFrom(s, i, p) ==
  LET P == {j \in i..(Len(s) - Len(p) + 1) : SubSeq(s, j, j + Len(p) - 1) = p} IN
  IF P = {} THEN 0 ELSE CHOOSE j \in P : \A k \in P : j <= k

HasSub(s, p) == IndexFrom(s, 1, p) # 0

RECURSIVE SubstAll(_, _, _)
SubstAll(s, old, new) ==
  LET j == IndexFrom(s, 1, old) IN
  IF j = 0 THEN s
  ELSE SubSeq(s, 1, j - 1) \o new \o SubstAll(From(s, j + Len(old)), old, new)

SubstFirst(s, old, new) ==
  LET j == IndexFrom(s, 1, old) IN
  IF j = 0 THEN s ELSE SubSeq(s, 1, j - 1) \o new \o From(s, j + Len(old))

TrimPrefix(s, p) == IF HasPrefix(s, p) THEN From(s, Len(p) + 1) ELSE s
TrimSuffix(s, p) == IF HasSuffix(s, p) THEN SubSeq(s, 1, Len(s) - Len(p)) ELSE s

RECURSIVE Join(_, _)
Join(ss, sep) ==
  IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(* the parts between the occurrences of a separator of one character *)
Split(s, sep) ==
  LET P == SetToSortSeq({i \in 1..Len(s) : SubSeq(s, i, i) = sep}, <)
      n == Len(P)
  IN TLCEval([i \in 1..(n + 1) |-> SubSeq(s, IF i = 1 THEN 1 ELSE P[i - 1] + 1, IF i > n THEN Len(s) ELSE P[i] - 1)])


(* ---- order of names, by character code for the characters used in paths ---- *)
Alphabet == " !#$%&'()+,-.0123456789;=@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{}~"
Codes == [ch \in {Ch(Alphabet, i) : i \in 1..Len(Alphabet)} |-> IndexFrom(Alphabet, 1, ch)]
Code(ch) == Codes[ch]

StrLess(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : Ch(a, i) # Ch(b, i)}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE i \in D : \A k \in D : i <= k IN Code(Ch(a, i)) < Code(Ch(b, i))

Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"

Letters(from, to) == [ch \in {Ch(from, i) : i \in 1..Len(from)} |-> Ch(to, IndexFrom(from, 1, ch))]
ToLower == Letters(Uppers, Lowers)
ToUpper == Letters(Lowers, Uppers)

RECURSIVE MapText(_, _)
MapText(s, m) ==
  LET P == {i \in 1..Len(s) : Ch(s, i) \in DOMAIN m} IN
  IF P = {} THEN s
  ELSE LET i == CHOOSE i \in P : \A k \in P : i <= k IN
       SubSeq(s, 1, i - 1) \o m[Ch(s, i)] \o MapText(From(s, i + 1), m)
Lower(s) == MapText(s, ToLower)
Upper(s) == MapText(s, ToUpper)

(* ---- decimal numbers as text; TLC's own integers have 32 bits ---- *)
Digits == "0123456789"
IsDigit(ch) == ch \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVals == [ch \in {Ch(Digits, i) : i \in 1..10} |-> IndexFrom(Digits, 1, ch) - 1]
DigitVal(ch) == DigitVals[ch]
DigitChr(d) == Ch(Digits, d + 1)

AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
Sign(s) == IF HasPrefix(s, "-") THEN -1 ELSE 1
Mag(s) == IF HasPrefix(s, "-") \/ HasPrefix(s, "+") THEN From(s, 2) ELSE s
IsDec(s) == AllDigits(Mag(s))

(* the line and the paragraph separator *)
LineSep == " "
ParaSep == " "

(* digits with one point: a float in plain YAML *)
IsPoint(s) ==
  LET m == Mag(s) IN
  Len(m) > 1 /\ \E i \in 1..Len(m) : Ch(m, i) = "." /\ \A j \in 1..Len(m) : j = i \/ AllDigits(Ch(m, j))

AllFrom(s, chars) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in chars
IsBased(s) ==
  LET m == Mag(s) IN
  \/ HasPrefix(m, "0x") /\ AllFrom(From(m, 3), {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"})
  \/ HasPrefix(m, "0o") /\ AllFrom(From(m, 3), {"0", "1", "2", "3", "4", "5", "6", "7"})
  \/ HasPrefix(m, "0b") /\ AllFrom(From(m, 3), {"0", "1"})

RECURSIVE Strip0(_)
Strip0(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN Strip0(From(s, 2)) ELSE s

RECURSIVE MagLess(_, _)
MagLess(a, b) == \* both stripped
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE IF a = "" THEN FALSE
  ELSE IF Ch(a, 1) # Ch(b, 1) THEN DigitVal(Ch(a, 1)) < DigitVal(Ch(b, 1))
  ELSE MagLess(From(a, 2), From(b, 2))

RECURSIVE MagAdd(_, _, _)
MagAdd(a, b, carry) == \* most significant digit first
  IF a = "" /\ b = "" THEN (IF carry = 0 THEN "" ELSE "1")
  ELSE LET da == IF a = "" THEN 0 ELSE DigitVal(Ch(a, Len(a)))
           db == IF b = "" THEN 0 ELSE DigitVal(Ch(b, Len(b)))
           s == da + db + carry
       IN MagAdd(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1), s \div 10) \o DigitChr(s % 10)

RECURSIVE MagSub(_, _, _)
MagSub(a, b, borrow) == \* a >= b
  IF a = "" THEN ""
  ELSE LET da == DigitVal(Ch(a, Len(a)))
           db == IF b = "" THEN 0 ELSE DigitVal(Ch(b, Len(b)))
           d == da - db - borrow
       IN MagSub(SubSeq(a, 1, Len(a) - 1), SubSeq(b, 1, Len(b) - 1), IF d < 0 THEN 1 ELSE 0)
          \o DigitChr(IF d < 0 THEN d + 10 ELSE d)

DecAdd(x, y) ==
  LET a == Strip0(Mag(x)) b == Strip0(Mag(y))
      Neg(s) == IF s = "0" THEN s ELSE "-" \o s
  IN IF Sign(x) = Sign(y)
     THEN LET m == Strip0(MagAdd(a, b, 0)) IN IF Sign(x) = -1 THEN Neg(m) ELSE m
     ELSE IF MagLess(a, b)
          THEN LET m == Strip0(MagSub(b, a, 0)) IN IF Sign(y) = -1 THEN Neg(m) ELSE m
          ELSE LET m == Strip0(MagSub(a, b, 0)) IN IF Sign(x) = -1 THEN Neg(m) ELSE m

MaxMag == "9223372036854775807"
MinMag == "9223372036854775808"
Fits64(x) ==
  LET m == Strip0(Mag(x)) IN
  IF Sign(x) = -1 THEN ~MagLess(MinMag, m) ELSE ~MagLess(MaxMag, m)

(* small whole numbers *)
RECURSIVE ToNat(_)
ToNat(s) == IF s = "" THEN 0 ELSE 10 * ToNat(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
ToInt(s) == Sign(s) * ToNat(Mag(s))

(* numbers with decimals: -1, 0 or 1 as x is below, equal to or above y *)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Whole(s) == LET m == Mag(s) d == IndexFrom(m, 1, ".") IN Strip0(IF d = 0 THEN m ELSE SubSeq(m, 1, d - 1))
Frac(s) == LET m == Mag(s) d == IndexFrom(m, 1, ".") IN IF d = 0 THEN "" ELSE From(m, d + 1)
NumOrder(x, y) ==
  LET fx == Frac(x) fy == Frac(y)
      w == IF Len(fx) > Len(fy) THEN Len(fx) ELSE Len(fy)
      mx == Strip0(Whole(x) \o fx \o Zeros(w - Len(fx)))
      my == Strip0(Whole(y) \o fy \o Zeros(w - Len(fy)))
      sx == IF mx = "0" THEN 1 ELSE Sign(x)
      sy == IF my = "0" THEN 1 ELSE Sign(y)
  IN IF mx = my /\ sx = sy THEN 0
     ELSE IF sx # sy THEN sx
     ELSE IF MagLess(mx, my) THEN -sx ELSE sx
=============================================================================
