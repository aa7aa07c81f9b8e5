------------------------------- MODULE Engine --------------------------------
(* What a run of the engine may do.  Examples are sequences of numbers; an outcome is "p" (pass), "r" (rejected), "over" (abandoned: too    *)
(* long), "k" (interrupted) or a failure ("f1", "f2", ...).                                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Fails == {"f1", "f2", "f3", "f4", "f5", "f6"}
FailName(i) == CASE i = 1 -> "f1" [] i = 2 -> "f2" [] i = 3 -> "f3" [] i = 4 -> "f4" [] i = 5 -> "f5" [] OTHER -> "f6"
(* a is simpler than b: shorter, or as long and smaller at the first difference                                                          *)
Simpler(a, b) == \/ Len(a) < Len(b)
                 \/ Len(a) = Len(b) /\ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1 .. i - 1 : a[j] = b[j]
Agree(a, b) == \A i \in 1 .. (IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)) : a[i] = b[i]
Max(a, b) == IF a > b THEN a ELSE b
CallLimit(max) == Max(10 * max, 1000)
(* some database entry still fails in each of these ways                                                                                 *)
Recoverable(failures, entries, out(_)) == \A f \in failures : \E e \in entries : out(e) = f
==============================================================================
