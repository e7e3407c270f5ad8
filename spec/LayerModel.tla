----------------------------- MODULE LayerModel -----------------------------
(* Objects come and go, define and mention; a father puts a problem together. *)
EXTENDS Layer
CONSTANTS Stems, Names, NOBJ
VARIABLES used, lab, defs, ments, built
vars == <<used, lab, defs, ments, built>>
Init == used = {} /\ lab = <<>> /\ defs = {} /\ ments = {} /\ built = "no"
New == /\ Len(lab) < NOBJ
       /\ \E s \in Stems, k \in 0..1 : LET l == FirstFree(used, s, k) IN lab' = Append(lab, l) /\ used' = used \cup {l}
       /\ UNCHANGED <<defs, ments, built>>
Define == built = "no" /\ \E o \in 1..Len(lab), n \in Names : defs' = defs \cup {<<o, n>>} /\ UNCHANGED <<used, lab, ments, built>>
Mention == built = "no" /\ \E o \in 1..Len(lab), n \in Names : ments' = ments \cup {<<o, n>>} /\ UNCHANGED <<used, lab, defs, built>>
Build == built = "no" /\ built' = (IF Meaningless(defs, ments) THEN "refused" ELSE "built") /\ UNCHANGED <<used, lab, defs, ments>>
\* an object is emptied and describes itself anew; its label stays taken
Reset == built # "no" /\ built' = "no" /\ defs' = {} /\ ments' = {} /\ UNCHANGED <<used, lab>>
Next == New \/ Define \/ Mention \/ Build \/ Reset
Spec == Init /\ [][Next]_vars
Distinct == \A a, b \in 1..Len(lab) : a # b => lab[a] # lab[b]
\* the entries of the problem are told apart by label and name
Entries == {<<lab[d[1]], d[2]>> : d \in defs}
NoneLost == Cardinality(Entries) = Cardinality(defs)
\* in a built problem every mention means one entry
Meaning == built = "built" => \A m \in ments : \E d \in defs : d[2] = m[2] /\ \A e \in defs : e[2] = m[2] => e = d
\* and a problem is only refused for a reason
Reason == built = "refused" => \E m \in ments : \/ \A d \in defs : d[2] # m[2]
                                                \/ \E d, e \in defs : d # e /\ d[2] = m[2] /\ e[2] = m[2]
=============================================================================
