------------------------------- MODULE MCCache -------------------------------
(* All behaviours of a cache with room for Max of the Keys, scores renumbered after every step so that the state
   space is finite.  Prints every transition. *)
EXTENDS Cache, TLC, Json
CONSTANTS Keys, Max, MaxPins, Policy
VARIABLES c, last
vars == <<c, last>>
Norm(d) == LET S == {d[k].s : k \in DOMAIN d}
               cls(s) == s \div Rank
               r(s) == cls(s) * Rank + Cardinality({x \in S : x < s /\ cls(x) = cls(s)})
           IN [k \in DOMAIN d |-> [d[k] EXCEPT !.s = r(@)]]
N == NewScore(Policy, 50, <<>>, "") U == UsedScore(Policy, 50, <<>>, "")
Init == c = <<>> /\ last = [op |-> "", k |-> "", ev |-> "", out |-> ""]
Do(op, k, d, out, ev) == /\ c' = Norm(d) /\ last' = [op |-> op, k |-> k, ev |-> ev, out |-> out]
                         /\ PrintT("@@" \o ToJson([s |-> c, a |-> last', t |-> c']))
Next == \E k \in Keys :
   \/ \E r \in Store(c, Max, k, 0, N, U) : Do("set", k, r.c, r.out, r.ev)
   \/ LET r == Get(c, k, U) IN Do("get", k, r.c, r.out, "")
   \/ /\ Policy = "reused"
      /\ \/ \E r \in Pin(c, Max, k, 0, N, U) : (k \in DOMAIN c => c[k].p < MaxPins) /\ Do("pin", k, r.c, r.out, r.ev)
         \/ LET r == Unpin(c, k) IN Do("unpin", k, r.c, r.out, "")
   \/ Policy = "reused" /\ Do("clear", k, <<>>, "ok", "")
Spec == Init /\ [][Next]_vars
view == c
Bounded == Cardinality(DOMAIN c) <= Max
PinnedStay == [][last'.op # "clear" => \A k \in DOMAIN c : c[k].p > 0 => k \in DOMAIN c']_vars
EvictOne == [][last'.op # "clear" => Cardinality(DOMAIN c \ DOMAIN c') <= 1
               /\ (DOMAIN c \ DOMAIN c' # {} => Cardinality(DOMAIN c) = Max /\ DOMAIN c' # DOMAIN c)]_vars
NeverUsedFirst == [][\A k \in DOMAIN c \ DOMAIN c' : last'.op # "clear" =>
     \A j \in Unpinned(c) : c[j].s \div Rank >= c[k].s \div Rank]_vars
==============================================================================
