------------------------------ MODULE Stateful -------------------------------
(* Running a rule-based state machine.  A machine definition m has                                                           *)
(*   m.rules: sequence of [init (0/1), args, targets, pre];   args: sequence of [b (tuple of bundles), use (0/1)] (use: the   *)
(*     values taken are removed); targets: tuple of bundles; pre: sequence of [m, r] meaning "the number of calls so far is   *)
(*     not r modulo m"                                                                                                        *)
(*   m.invs: sequence of [pre, during (0/1)];   m.steps: the most rules called;   m.nb: number of bundles                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
Holds(pre, n) == \A i \in DOMAIN pre : n % pre[i].m # pre[i].r
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameBag(s, u) == Len(s) = Len(u) /\ \A v \in Range(s) \cup Range(u) : Count(s, v) = Count(u, v)
Inits(m) == {i \in DOMAIN m.rules : m.rules[i].init = 1}
RECURSIVE Without(_, _)
Without(s, v) == IF s = <<>> THEN <<>> ELSE IF Head(s) = v THEN Tail(s) ELSE <<Head(s)>> \o Without(Tail(s), v)
RECURSIVE WithoutAll(_, _)
WithoutAll(s, vs) == IF vs = <<>> THEN s ELSE WithoutAll(Without(s, Head(vs)), Tail(vs))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
(* values consumed from bundle b by a call with arguments args (args[i]: sequence of <<bundle, value>>)                      *)
TakenFrom(r, args, b) == Flat([i \in DOMAIN args |-> IF r.args[i].use = 0 THEN <<>> ELSE
   LET f == SelectSeq(args[i], LAMBDA p : p[1] = b) IN [j \in DOMAIN f |-> f[j][2]]])
MayCall(m, todo, bundles, n, r) ==
  /\ (todo # {} => r \in todo) /\ (todo = {} => m.rules[r].init = 0) /\ n < m.steps /\ Holds(m.rules[r].pre, n)
ArgsOk(m, bundles, r, args) ==
  /\ Len(args) = Len(m.rules[r].args)
  /\ \A i \in DOMAIN args : \A j \in DOMAIN args[i] : args[i][j][1] \in Range(m.rules[r].args[i].b) /\ Count(bundles[args[i][j][1]], args[i][j][2]) > 0
  /\ \A b \in 1 .. m.nb : LET u == TakenFrom(m.rules[r], args, b) IN \A v \in Range(u) : Count(u, v) <= Count(bundles[b], v)
Taken(m, bundles, r, args) == [b \in 1 .. m.nb |-> WithoutAll(bundles[b], TakenFrom(m.rules[r], args, b))]
Added(m, bundles, r, vals) == [b \in 1 .. m.nb |-> bundles[b] \o Flat([i \in DOMAIN vals |-> [k \in 1 .. Count(m.rules[r].targets, b) |-> vals[i]]])]
DueInvs(m, todo, n) == {i \in DOMAIN m.invs : (todo = {} \/ m.invs[i].during = 1) /\ Holds(m.invs[i].pre, n)}
(* a rule could be called: its preconditions hold and no bundle it takes a value from directly is empty                      *)
Possible(m, bundles, n) == {r \in DOMAIN m.rules : m.rules[r].init = 0 /\ Holds(m.rules[r].pre, n)
                                                  /\ \A i \in DOMAIN m.rules[r].args : m.rules[r].args[i].direct = 1 => bundles[m.rules[r].args[i].b[1]] # <<>>}
==============================================================================
