-------------------------------- MODULE Ast ---------------------------------
(* C03/C04.  Programs as derivations: start from a leaf construct and repeatedly place what has been  *)
(* built so far into a hole of another construct.  Every reachable state is a valid program whose     *)
(* tree and ranges are known by construction.                                                         *)
EXTENDS Ruby
CONSTANTS Depth, LeafFrom, LeafTo
VARIABLES f, d
Seeds == Leaves \o StmtLeaves
Init == d = 0 /\ \E i \in LeafFrom..(IF LeafTo = 0 \/ LeafTo > Len(Seeds) THEN Len(Seeds) ELSE LeafTo) : f = Seeds[i]
Next == /\ d < Depth
        /\ d' = d + 1
        /\ \E w \in {Wraps(f)} : \E i \in DOMAIN w : f' = w[i]
Emit == CaseXL(f)
=============================================================================
