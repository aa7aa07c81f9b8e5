------------------------------- MODULE Settings ------------------------------
(* Settings objects, profiles and the default in force.  Objects are numbered in order of creation; obj[i] gives their values as a        *)
(* function from the names of the settings; prof maps names of profiles to objects; cur is the name of the profile loaded last; val[h]    *)
(* is the default of thread h (0: none looked up yet); saved[h] are the defaults to come back to when local contexts are left.            *)
EXTENDS Integers, Sequences, FiniteSets
None == 0
(* what creating an object with these explicit values gives, on top of base                                                              *)
Made(explicit, base) == [s \in DOMAIN base |-> IF s = "database" /\ "derandomize" \in DOMAIN explicit /\ explicit["derandomize"] = "True" THEN "None"
                                               ELSE IF s \in DOMAIN explicit THEN explicit[s] ELSE base[s]]
Clash(explicit) == "derandomize" \in DOMAIN explicit /\ explicit["derandomize"] = "True" /\ "database" \in DOMAIN explicit /\ explicit["database"] # "None"
(* the default that thread h finds                                                                                                       *)
Current(val, h, prof, cur) == IF val[h] # None THEN val[h] ELSE prof[cur]
==============================================================================
