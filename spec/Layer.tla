------------------------------- MODULE Layer -------------------------------
(* The modelling layer: objects with labels define variables, parameters,     *)
(* constraints and objectives, and mention, by name, what others define.      *)
EXTENDS Integers, Sequences, FiniteSets
\* the label an object gets: what it asks for, with the first number from k on that is free
RECURSIVE FirstFree(_, _, _)
FirstFree(used, stem, k) == IF <<stem, k>> \in used THEN FirstFree(used, stem, k + 1) ELSE <<stem, k>>
\* defs: set of <<object, name>>; mentions alike
Definers(defs, n) == {o \in {d[1] : d \in defs} : <<o, n>> \in defs}
Meaningless(defs, mentions) == \E m \in mentions : Cardinality(Definers(defs, m[2])) # 1
=============================================================================
