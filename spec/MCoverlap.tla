---- MODULE MCoverlap ----
EXTENDS Overlap
CONSTANTS t1, t2, t3
NeedsDef == [e \in {"x", "y", "z"} |-> CASE e = "x" -> {} [] e = "y" -> {"x"} [] e = "z" -> {"y"}]
AboutDef == [e \in {"x", "y", "z"} |-> IF e = "z" THEN "h" ELSE "g"]
InsideDef == [g \in {"p", "q"} |-> IF g = "p" THEN {"q"} ELSE {"p"}]
DeliveriesDef == {{"x", "y"}, {"y", "z"}, {"z"}, {"x", "z"}}
Sym == Permutations(Threads)
====
