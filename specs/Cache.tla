-------------------------------- MODULE Cache --------------------------------
(* A bounded cache.  c maps each key held to [v, s, p]: value, score, number of pins.  Inserting into a full cache
   evicts an unpinned entry with the smallest score; if there is none the insertion is refused.  The scores of the
   "reused" policy are (class, tick): entries never used since they were inserted come first, then by age; those of
   the "lru" policy are ticks; "custom" takes them from tables.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets
Rank == 100000          \* class * Rank + tick

NewScore(pol, tick, tab, k) == CASE pol = "reused" -> Rank + tick [] pol = "lru" -> tick [] OTHER -> tab[k][1]
UsedScore(pol, tick, tab, k) == CASE pol = "reused" -> 2 * Rank + tick [] pol = "lru" -> tick [] OTHER -> tab[k][2]
Unpinned(c) == {k \in DOMAIN c : c[k].p = 0}
Victims(c) == {k \in Unpinned(c) : \A j \in Unpinned(c) : c[k].s <= c[j].s}
Without(c, k) == [j \in DOMAIN c \ {k} |-> c[j]]
With(c, k, e) == [j \in DOMAIN c \cup {k} |-> IF j = k THEN e ELSE c[j]]

(* the possible results of storing v under k: a set of [c, out, ev] *)
Store(c, max, k, v, new, used) ==
  IF k \in DOMAIN c THEN {[c |-> With(c, k, [v |-> v, s |-> used, p |-> c[k].p]), out |-> "ok", ev |-> ""]}
  ELSE IF Cardinality(DOMAIN c) < max THEN {[c |-> With(c, k, [v |-> v, s |-> new, p |-> 0]), out |-> "ok", ev |-> ""]}
  ELSE IF Unpinned(c) = {} THEN {[c |-> c, out |-> "ValueError", ev |-> ""]}
  ELSE {[c |-> With(Without(c, x), k, [v |-> v, s |-> new, p |-> 0]), out |-> "ok", ev |-> x] : x \in Victims(c)}
Pinned(c, k) == [c EXCEPT ![k].p = @ + 1]
Pin(c, max, k, v, new, used) ==
  {IF r.out = "ok" THEN [r EXCEPT !.c = Pinned(r.c, k)] ELSE r : r \in Store(c, max, k, v, new, used)}
Unpin(c, k) == CASE k \notin DOMAIN c -> [c |-> c, out |-> "KeyError"]
                 [] c[k].p = 0        -> [c |-> c, out |-> "ValueError"]
                 [] OTHER             -> [c |-> [c EXCEPT ![k].p = @ - 1], out |-> "ok"]
Get(c, k, used) == IF k \in DOMAIN c THEN [c |-> [c EXCEPT ![k].s = used], out |-> "ok"] ELSE [c |-> c, out |-> "KeyError"]
==============================================================================
