---- MODULE MCkeys ----
EXTENDS KeyPlane
====
