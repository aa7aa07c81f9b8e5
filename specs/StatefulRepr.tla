---------------------------- MODULE StatefulRepr -----------------------------
(* Printing the steps of a state machine as a program, and what the program means.                                            *)
(* A step of the run is [f, args, vals, nt]: rule called, values of its arguments, values returned, number of target bundles.  *)
(* A printed step is [f, names, form, refs]: names assigned, how they're assigned (0: no assignment, 1: every name gets the     *)
(* returned value, 2: every name gets the only element of the returned collection, 3: names get the elements of the returned     *)
(* collection), names used in the arguments.  (Names are numbers here.)                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)
(* values the printed assignment gives to its names when the call returns `vals` (as multiple() or not); <<>> if it fails        *)
Assigned(p, vals, many) ==
  CASE p.form = 0 -> <<>>
    [] p.form = 1 -> IF many = 1 THEN <<>> ELSE [i \in DOMAIN p.names |-> vals[1]]
    [] p.form = 2 -> IF many = 0 \/ Len(vals) # 1 THEN <<>> ELSE [i \in DOMAIN p.names |-> vals[1]]
    [] p.form = 3 -> IF many = 0 \/ Len(vals) # Len(p.names) THEN <<>> ELSE vals
(* how many values go to bundles: every one gets a name                                                                          *)
Wanted(s) == s.nt * Len(s.vals)
==============================================================================
