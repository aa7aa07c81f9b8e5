---- MODULE MCDrawState ----
EXTENDS DrawState
====
