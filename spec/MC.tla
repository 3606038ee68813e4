---- MODULE MC ----
EXTENDS Keyhive
Sym == Permutations(Peers) \cup Permutations(Groups)
====
