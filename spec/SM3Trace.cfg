SPECIFICATION Spec
INVARIANTS Good HistInv
VIEW View
