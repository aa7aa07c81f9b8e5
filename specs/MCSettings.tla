----------------------------- MODULE MCSettings ------------------------------
(* All short histories over two settings, two profiles and two threads.                                                                   *)
EXTENDS Settings, TLC
CONSTANTS MaxObjects, MaxDepth
VARIABLES obj, prof, cur, val, saved, entered, explicitof, baseof
vars == <<obj, prof, cur, val, saved, entered, explicitof, baseof>>
Names == {"default", "p"}
Threads == {1, 2}
Args == {<<>>} \cup {"derandomize" :> v : v \in {"True", "False"}} \cup {"database" :> v : v \in {"None", "A"}} \cup {("derandomize" :> "True") @@ ("database" :> "A")}
First == [derandomize |-> "False", database |-> "home"]
Init == /\ obj = <<First>> /\ prof = [n \in {"default"} |-> 1] /\ cur = "default" /\ val = [h \in Threads |-> IF h = 1 THEN 1 ELSE None] /\ saved = [h \in Threads |-> <<>>] /\ entered = [h \in Threads |-> <<>>]
        /\ explicitof = <<[x \in {} |-> ""]>> /\ baseof = <<0>>
Base(parent, h) == IF parent = 0 THEN Current(val, h, prof, cur) ELSE parent
Look(h) == [val EXCEPT ![h] = Current(val, h, prof, cur)]
Create(explicit, parent, h) == /\ Len(obj) < MaxObjects /\ ~Clash(explicit)
                               /\ obj' = Append(obj, Made(explicit, obj[Base(parent, h)])) /\ explicitof' = Append(explicitof, explicit) /\ baseof' = Append(baseof, Base(parent, h))
Make(h) == \E e \in Args : \E p \in 0 .. Len(obj) : Create(e, p, h) /\ val' = (IF p = 0 THEN Look(h) ELSE val) /\ UNCHANGED <<prof, cur, saved, entered>>
Register(h) == \E n \in Names : \E e \in Args : \E p \in 0 .. Len(obj) :
  LET new == IF p # 0 /\ e = <<>> THEN p ELSE Len(obj) + 1 IN
  /\ IF new = p THEN UNCHANGED <<obj, explicitof, baseof>> ELSE Create(e, p, h)
  /\ prof' = (n :> new) @@ prof /\ cur' = cur
  /\ val' = IF cur = n THEN [val EXCEPT ![h] = new] ELSE IF p = 0 THEN Look(h) ELSE val
  /\ UNCHANGED <<saved, entered>>
Load(h) == \E n \in DOMAIN prof : cur' = n /\ val' = [val EXCEPT ![h] = prof[n]] /\ UNCHANGED <<obj, prof, saved, entered, explicitof, baseof>>
Enter(h) == \E i \in 1 .. Len(obj) : Len(saved[h]) < MaxDepth /\ saved' = [saved EXCEPT ![h] = Append(@, val[h])] /\ val' = [val EXCEPT ![h] = i]
            /\ entered' = [entered EXCEPT ![h] = Append(@, Current(val, h, prof, cur))] /\ UNCHANGED <<obj, prof, cur, explicitof, baseof>>
Leave(h) == saved[h] # <<>> /\ val' = [val EXCEPT ![h] = saved[h][Len(saved[h])]] /\ saved' = [saved EXCEPT ![h] = SubSeq(@, 1, Len(@) - 1)]
            /\ entered' = [entered EXCEPT ![h] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<obj, prof, cur, explicitof, baseof>>
Next == \E h \in Threads : Make(h) \/ Register(h) \/ Load(h) \/ Enter(h) \/ Leave(h)
Spec == Init /\ [][Next]_vars
Resolution == \A i \in 2 .. Len(obj) : \A s \in DOMAIN First :
  obj[i][s] = IF s \in DOMAIN explicitof[i] THEN explicitof[i][s] ELSE IF s = "database" /\ obj[i]["derandomize"] = "True" /\ "derandomize" \in DOMAIN explicitof[i] THEN "None" ELSE obj[baseof[i]][s]
Immutable == [][\A i \in DOMAIN obj : obj'[i] = obj[i]]_vars
LoadedExists == cur \in DOMAIN prof
AtOnce == [][\A n \in Names : \A h \in Threads : (prof' # prof /\ cur' = n /\ prof'[n] # prof[n] /\ val'[h] # val[h]) => Current(val', h, prof', cur') = prof'[n]]_vars
Restores == [][\A h \in Threads : Len(saved'[h]) < Len(saved[h]) /\ saved[h][Len(saved[h])] # None => Current(val', h, prof', cur') = entered[h][Len(entered[h])]]_vars
==============================================================================
