------------------------------ MODULE Listeners ------------------------------
(* Who hears what.  A handle is a leaf (with a store), a read-only wrapper, a background writer or a
   multiplexer over other handles.  reg[h] is the list of entries called for every change at h: user
   listeners and relays to a parent that is itself being listened to.  All operators take their context
   (Topo: handle -> [kind, store, kids, w]) as arguments so that traces can bring their own topology.    *)
EXTENDS Naturals, Sequences, FiniteSets

User(f) == [u |-> TRUE, f |-> f]
Relay(p) == [u |-> FALSE, f |-> p]

RECURSIVE FoldS(_, _, _)
FoldS(Op(_, _), x, s) == IF s = <<>> THEN x ELSE FoldS(Op, Op(x, Head(s)), Tail(s))

FirstIdx(s, e) == CHOOSE i \in DOMAIN s : s[i] = e /\ \A j \in 1 .. (i - 1) : s[j] # e
RemoveOne(s, e) == IF \E i \in DOMAIN s : s[i] = e
                   THEN LET i == FirstIdx(s, e) IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) ELSE s

Relaying(Topo, h) == Topo[h].kind \in {"mx", "bg"}
(* Adding the first entry makes a composite listen to its members; removing the last makes it stop. *)
RECURSIVE AddE(_, _, _, _)
AddE(Topo, reg, h, e) ==
  LET r1 == [reg EXCEPT ![h] = Append(@, e)]
  IN IF reg[h] = <<>> /\ Relaying(Topo, h)
     THEN FoldS(LAMBDA r, c : AddE(Topo, r, c, Relay(h)), r1, Topo[h].kids) ELSE r1
RECURSIVE RemE(_, _, _, _)
RemE(Topo, reg, h, e) ==
  LET r1 == [reg EXCEPT ![h] = RemoveOne(@, e)]
  IN IF reg[h] # <<>> /\ r1[h] = <<>> /\ Relaying(Topo, h)
     THEN FoldS(LAMBDA r, c : RemE(Topo, r, c, Relay(h)), r1, Topo[h].kids) ELSE r1
ClearE(Topo, reg, h) ==
  LET r1 == [reg EXCEPT ![h] = <<>>]
  IN IF reg[h] # <<>> /\ Relaying(Topo, h)
     THEN FoldS(LAMBDA r, c : RemE(Topo, r, c, Relay(h)), r1, Topo[h].kids) ELSE r1

(* heard: the calls of user listeners caused by one event at handle h, in registration order *)
RECURSIVE Notify(_, _, _)
Notify(reg, h, ev) ==
  FoldS(LAMBDA acc, e : acc \o (IF e.u THEN << <<h, e.f>> \o ev >> ELSE Notify(reg, e.f, ev)), <<>>, reg[h])

(* the leaf handles an operation on h writes to, in order *)
RECURSIVE Writes(_, _)
Writes(Topo, h) ==
  CASE Topo[h].kind = "leaf" -> <<h>>
    [] Topo[h].kind = "ro"   -> <<>>
    [] OTHER                 -> FoldS(LAMBDA acc, c : acc \o Writes(Topo, c), <<>>, Topo[h].kids)

(* state of one operation: the stores and what has been heard so far *)
Change(Topo, reg, x, leaf, op, k, v) ==
  LET st  == Topo[leaf].store
      isin == v \in x.db[st][k]
      real == (op = "save" /\ ~isin) \/ (op = "delete" /\ isin)
      at  == Topo[leaf].peers      \* all handles open on the same store
  IN IF ~real THEN x
     ELSE [db    |-> [x.db EXCEPT ![st][k] = IF op = "save" THEN @ \cup {v} ELSE @ \ {v}],
           heard |-> x.heard \o FoldS(LAMBDA acc, h : acc \o Notify(reg, h, <<op, k, v>>), <<>>, at)]

DoOp(Topo, reg, db, h, op, k, t, v) ==
  FoldS(LAMBDA x, leaf :
          CASE op = "move" /\ k # t -> Change(Topo, reg, Change(Topo, reg, x, leaf, "delete", k, v), leaf, "save", t, v)
            [] op = "move"          -> Change(Topo, reg, x, leaf, "save", k, v)
            [] OTHER                -> Change(Topo, reg, x, leaf, op, k, v),
        [db |-> db, heard |-> <<>>], Writes(Topo, h))
==============================================================================
