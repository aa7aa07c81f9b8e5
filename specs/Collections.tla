----------------------------- MODULE Collections -----------------------------
(* What a generated collection may be, and the loop that generates one.                                    *)
(* c: min, max sizes; elems the set of values of the element strategy; keys a sequence of functions of them. *)
EXTENDS Integers, Sequences, FiniteSets
Range(s) == {s[i] : i \in DOMAIN s}
UniqueBy(c, s) == \A k \in DOMAIN c.keys : \A i, j \in DOMAIN s : i # j => c.keys[k][s[i]] # c.keys[k][s[j]]
Fits(c, s) == Len(s) >= c.min /\ Len(s) <= c.max /\ (\A i \in DOMAIN s : s[i] \in c.elems) /\ UniqueBy(c, s)
Lists(c) == {s \in UNION {[1 .. k -> c.elems] : k \in c.min .. c.max} : UniqueBy(c, s)}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Count(a, x) = Count(b, x)
Ascending(s) == \A i \in 1 .. (Len(s) - 1) : s[i] < s[i + 1]
RECURSIVE Prod(_, _)
Prod(ss, n) == IF n = 0 THEN 1 ELSE Cardinality(Range(ss[n])) * Prod(ss, n - 1)

(* the generating loop: continue or stop, draw an element, reject it if a key was seen *)
VARIABLES cfg, result, count, rejections, phase, target, forced
cvars == <<cfg, result, count, rejections, phase, target, forced>>
LoopInit(C) == /\ cfg \in C /\ result = <<>> /\ count = 0 /\ rejections = 0 /\ phase = "more" /\ forced = FALSE
               /\ target \in Lists(cfg) \cup {<<-1>>}
More == /\ phase = "more"
        /\ \/ (IF cfg.min = cfg.max THEN count < cfg.min ELSE ~forced /\ count < cfg.max) /\ count' = count + 1 /\ phase' = "draw"
           \/ (IF cfg.min = cfg.max THEN count >= cfg.min ELSE forced \/ count >= cfg.min) /\ phase' = "done" /\ UNCHANGED count
        /\ UNCHANGED <<cfg, result, rejections, target, forced>>
Fresh(x) == \A k \in DOMAIN cfg.keys : \A i \in DOMAIN result : cfg.keys[k][result[i]] # cfg.keys[k][x]
Max2(a, b) == IF a < b THEN b ELSE a
Draw(x) == /\ phase = "draw"
           /\ IF Fresh(x) THEN result' = Append(result, x) /\ phase' = "more" /\ UNCHANGED <<count, rejections, forced>>
              ELSE /\ count' = count - 1 /\ rejections' = rejections + 1 /\ UNCHANGED result
                   /\ IF rejections + 1 > Max2(3, 2 * (count - 1))
                      THEN (IF count - 1 < cfg.min THEN phase' = "rejected" /\ UNCHANGED forced ELSE forced' = TRUE /\ phase' = "more")
                      ELSE phase' = "more" /\ UNCHANGED forced
           /\ UNCHANGED <<cfg, target>>
LoopNext == More \/ \E x \in cfg.elems : Draw(x)
Sound == phase = "done" => Fits(cfg, result)
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
(* every legal collection can be generated: a loop without rejections that has a proper part of it can go on towards it *)
Reachable == (target # <<-1>> /\ rejections = 0 /\ Prefix(result, target)) =>
   CASE phase = "more" -> IF Len(result) < Len(target) THEN (IF cfg.min = cfg.max THEN count < cfg.min ELSE count < cfg.max)
                          ELSE (IF cfg.min = cfg.max THEN count >= cfg.min ELSE count >= cfg.min)
     [] phase = "draw" -> Len(result) < Len(target) => Fresh(target[Len(result) + 1])
     [] OTHER -> TRUE
==============================================================================
