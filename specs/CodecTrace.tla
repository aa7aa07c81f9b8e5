------------------------------ MODULE CodecTrace ------------------------------
(* Encodings and decodings recorded from the real code.  enc [x, b]: sequence x was written as bytes b;
   dec [b, x]: bytes b were read as x ("none" if refused, "error" if it raised); x is a canonical text that shows
   type and exact bits of every choice.  The map from encodings to sequences must be a function, and reading must
   agree with it.                                                                                              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, table, bad
vars == <<t, l, table, bad>>
Init == t \in 1 .. Len(Traces) /\ l = 1 /\ table = <<>> /\ bad = ""
Known(b) == b \in DOMAIN table
Next == /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l] IN
           CASE e.op = "enc" -> /\ bad' = IF Known(e.b) /\ table[e.b] # e.x THEN "DifferentSequencesDifferentBytes" ELSE ""
                                /\ table' = (e.b :> e.x) @@ table
             [] e.op = "dec" -> /\ bad' = IF e.x = "error" THEN "ReadingNeverRaises"
                                          ELSE IF Known(e.b) /\ table[e.b] # e.x THEN "RoundTrip"
                                          ELSE IF ~e.proper THEN "OnlyChoices" ELSE ""
                                /\ UNCHANGED table
             [] OTHER -> bad' = "UnexpectedException" /\ UNCHANGED table
        /\ l' = l + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == /\ (bad' # "" => PrintT("@@" \o ToJson([t |-> t, l |-> l, bad |-> bad'])))
          /\ (l' = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> t, done |-> TRUE])))
==============================================================================
