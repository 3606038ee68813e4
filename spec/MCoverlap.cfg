CONSTANTS t1 = t1 t2 = t2 t3 = t3
CONSTANTS Threads = {t1, t2, t3}  Events = {"x", "y", "z"}  Needs <- NeedsDef  About <- AboutDef
  Deliveries <- DeliveriesDef  Objects = {"p", "q"}  Inside <- InsideDef
SPECIFICATION Spec
INVARIANTS NothingLost NothingBoth OnceEach OnlyReady
SYMMETRY Sym
