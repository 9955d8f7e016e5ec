------------------------------ MODULE GradLaw ------------------------------
(* Laws of the parameter gradients (C11) on the tree tensors of RepSpec:     *)
(* the gradient does not depend on the parameter, applied to the parameter   *)
(* it gives the values at the points, and the gradient with respect to a     *)
(* merged pair of nodes applied to their contraction too.                    *)
EXTENDS RepSpec
G == INSTANCE GradientSpec
Mats == [j \in 1..Len(vO.dims) |-> Rnd(seed, 200 + j, <<2, vA.shape[j]>>)]
GrInit == /\ seed \in 1..SEEDS /\ seed % 5 # 0 /\ vO = TreeObj(1 + (seed % 4), seed) /\ vA = Denote(vO) /\ vK = 0
GrNext == FALSE /\ UNCHANGED <<seed, vO, vA, vK>>
Active == {a \in 1..Len(vO.parent) : vO.act[a]}
Reproduces == \A a \in Active : G!Apply(G!GradTree(vO, Mats, a), vO.nodes[a], Order(vO.nodes[a])).data = G!Values(vO, Mats).data
Linear == \A a \in Active : G!GradTree(vO, Mats, a) = G!GradTree([vO EXCEPT !.nodes[a] = Rnd(seed, a + 300, vO.nodes[a].shape)], Mats, a)
Merged(a) == LET p == vO.parent[a] IN Contract(vO.nodes[a], vO.nodes[p], <<Order(vO.nodes[a])>>, <<PosIn(vO.ch[p], a)>>)
PairReproduces == \A a \in Active \ {1} :
    LET C == Merged(a) IN G!Apply(G!GradPair(vO, Mats, a), C, Order(C)).data = G!Values(vO, Mats).data
=============================================================================
