-------------------------------- MODULE FsDB --------------------------------
(* The directory database at the level of file-system steps.  Two processes each perform one call; either may
   be killed between any two steps, and a rename may fail once for no reason.  files[k][v] is the state of the
   file of value v in the directory of key k; tmp[p] is the temporary file of process p.                   *)
EXTENDS Naturals, FiniteSets
CONSTANTS Keys, Vals, Procs, Faults
VARIABLES dirs, files, tmp, pc, op, init, faults
vars == <<dirs, files, tmp, pc, op, init, faults>>

Ops == [kind : {"save", "delete"}, k : Keys, t : Keys, v : Vals] \cup [kind : {"move"}, k : Keys, t : Keys, v : Vals]
Init == /\ init \in SUBSET (Keys \X Vals)
        /\ files = [k \in Keys |-> [v \in Vals |-> IF <<k, v>> \in init THEN "full" ELSE "none"]]
        /\ dirs = {k \in Keys : \E v \in Vals : <<k, v>> \in init}
        /\ tmp = [p \in Procs |-> "none"] /\ faults = 0
        /\ op \in [Procs -> {o \in Ops : (o.kind # "move") => o.t = o.k}]
        /\ pc = [p \in Procs |-> "start"]

Goto(p, l) == pc' = [pc EXCEPT ![p] = l]
Into(p) == IF op[p].kind = "move" THEN op[p].t ELSE op[p].k    \* the key a save writes to
Same == UNCHANGED <<op, init>>

Start(p) == pc[p] = "start" /\ UNCHANGED <<dirs, files, tmp, faults>> /\ Same
   /\ Goto(p, CASE op[p].kind = "delete" -> "unlink" [] op[p].kind = "save" -> "mkdir"
                [] op[p].k = op[p].t -> "mkdir" [] OTHER -> "mkdest")
\* save: mkdir, look, create a temporary file elsewhere, write it, rename it into place
Mkdir(p) == pc[p] = "mkdir" /\ dirs' = dirs \cup {Into(p)} /\ Goto(p, "look") /\ UNCHANGED <<files, tmp, faults>> /\ Same
Look(p) == pc[p] = "look" /\ UNCHANGED <<dirs, files, tmp, faults>> /\ Same
   /\ Goto(p, IF files[Into(p)][op[p].v] # "none" THEN "saved" ELSE "create")
Create(p) == pc[p] = "create" /\ tmp' = [tmp EXCEPT ![p] = "empty"] /\ Goto(p, "write") /\ UNCHANGED <<dirs, files, faults>> /\ Same
Write(p) == pc[p] = "write" /\ \/ tmp' = [tmp EXCEPT ![p] = "part"] /\ tmp[p] = "empty" /\ UNCHANGED pc
                               \/ tmp' = [tmp EXCEPT ![p] = "full"] /\ Goto(p, "place")
   /\ UNCHANGED <<dirs, files, faults>> /\ Same
Place(p) == pc[p] = "place" /\ tmp' = [tmp EXCEPT ![p] = "none"] /\ Goto(p, "saved") /\ UNCHANGED dirs /\ Same
   /\ \/ Into(p) \in dirs /\ files' = [files EXCEPT ![Into(p)][op[p].v] = tmp[p]] /\ UNCHANGED faults
      \/ Into(p) \notin dirs /\ UNCHANGED <<files, faults>>          \* the directory went away: the save is lost
      \/ faults < Faults /\ faults' = faults + 1 /\ UNCHANGED files
Saved(p) == pc[p] = "saved" /\ UNCHANGED <<dirs, files, tmp, faults>> /\ Same
   \* a move that had to copy removes the source only if the destination is really there
   /\ Goto(p, IF op[p].kind = "move" /\ op[p].k # op[p].t /\ files[op[p].t][op[p].v] # "none" THEN "unlink" ELSE "done")
\* delete, also the last step of a move that could not rename
Unlink(p) == pc[p] = "unlink" /\ files' = [files EXCEPT ![op[p].k][op[p].v] = "none"] /\ Goto(p, "done")
   /\ UNCHANGED <<dirs, tmp, faults>> /\ Same
\* move: make the destination directory, rename, remove the source directory if that left it empty
Mkdest(p) == pc[p] = "mkdest" /\ dirs' = dirs \cup {op[p].t} /\ Goto(p, "rename") /\ UNCHANGED <<files, tmp, faults>> /\ Same
Rename(p) == pc[p] = "rename" /\ UNCHANGED <<dirs, tmp>> /\ Same
   /\ LET o == op[p] IN
      \/ files[o.k][o.v] # "none" /\ o.t \in dirs /\ Goto(p, "prune") /\ UNCHANGED faults
         /\ files' = [files EXCEPT ![o.k][o.v] = "none", ![o.t][o.v] = files[o.k][o.v]]
      \/ (files[o.k][o.v] = "none" \/ o.t \notin dirs) /\ Goto(p, "mkdir") /\ UNCHANGED <<files, faults>>
      \/ faults < Faults /\ faults' = faults + 1 /\ Goto(p, "mkdir") /\ UNCHANGED files
Prune(p) == pc[p] = "prune" /\ Goto(p, "done") /\ UNCHANGED <<files, tmp, faults>> /\ Same
   /\ dirs' = IF \A v \in Vals : files[op[p].k][v] = "none" THEN dirs \ {op[p].k} ELSE dirs
Crash(p) == pc[p] \notin {"done", "dead"} /\ Goto(p, "dead") /\ UNCHANGED <<dirs, files, tmp, faults>> /\ Same

Step(p) == Start(p) \/ Mkdir(p) \/ Look(p) \/ Create(p) \/ Write(p) \/ Place(p) \/ Saved(p) \/ Unlink(p)
           \/ Mkdest(p) \/ Rename(p) \/ Prune(p) \/ Crash(p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
Touches(p) == {<<op[p].k, op[p].v>>, <<op[p].t, op[p].v>>}
Has(k, v) == files[k][v] = "full"
NoPartial == \A k \in Keys, v \in Vals : files[k][v] \in {"none", "full"}
InADir == \A k \in Keys, v \in Vals : files[k][v] # "none" => k \in dirs
OthersKept == \A k \in Keys, v \in Vals : (\A p \in Procs : <<k, v>> \notin Touches(p)) => (Has(k, v) <=> <<k, v>> \in init)
(* A move keeps the value under one of its keys, whatever happens - unless somebody else removes it. *)
MoveKeeps == \A p \in Procs : (op[p].kind = "move" /\ <<op[p].k, op[p].v>> \in init
     /\ \A q \in Procs \ {p} : op[q].v # op[p].v \/ op[q].kind = "save") => Has(op[p].k, op[p].v) \/ Has(op[p].t, op[p].v)
(* A save that returned is there if nobody else removes from that key and nothing failed. *)
SaveStays == \A p \in Procs : (op[p].kind = "save" /\ pc[p] = "done" /\ faults = 0
     /\ \A q \in Procs \ {p} : op[q].kind = "save" \/ op[q].k # op[p].k) => Has(op[p].k, op[p].v)
DeletedGone == \A p \in Procs : (op[p].kind = "delete" /\ pc[p] = "done"
     /\ \A q \in Procs \ {p} : Touches(q) \cap Touches(p) = {}) => ~Has(op[p].k, op[p].v)
==============================================================================
