------------------------------ MODULE GridLaw ------------------------------
(* Laws of the enumeration of tensor grids: positions and multi-indices      *)
(* correspond one to one, a grid of distinct points enumerates distinct      *)
(* points, the sparse grid along all multi-indices is the full grid, and     *)
(* the tensor of values agrees with the function at every point.             *)
EXTENDS GridSpec
CONSTANTS DMAX, SMAX
VARIABLES gsh, gcols, gp
(* one-dimensional grid number q: n points of c coordinates, all distinct    *)
Axis(q, n, c) == [p \in 1..n |-> [x \in 1..c |-> 10 * q + p + (x - 1) * 5]]
GGrids == [q \in 1..Len(gsh) |-> Axis(q, gsh[q], gcols[q])]
GInit == /\ gsh \in UNION {[1..d -> 1..SMAX] : d \in 1..DMAX} /\ gcols \in [1..Len(gsh) -> 1..2] /\ gp = 0
GNext == gp < Size(gsh) /\ gp' = gp + 1 /\ UNCHANGED <<gsh, gcols>>
OneToOne == gp > 0 => LET ix == UnIdx(gsh, gp) IN IdxInShape(gsh, ix) /\ Flat(gsh, ix) = gp
Fastest == gp > 0 /\ gp < Size(gsh) =>
    LET i == UnIdx(gsh, gp)
        j == UnIdx(gsh, gp + 1)
        c == CHOOSE c \in 1..Len(gsh) : i[c] < gsh[c] /\ \A b \in 1..(c - 1) : i[b] = gsh[b]
    IN j = [b \in 1..Len(gsh) |-> IF b < c THEN 1 ELSE IF b = c THEN i[b] + 1 ELSE i[b]]
Enumerates == LET G == FullGrid(GGrids) IN
    /\ Len(G) = Size(gsh) /\ NoDup(G)
    /\ SparseGrid(GGrids, [p \in 1..Size(gsh) |-> UnIdx(gsh, p)]) = G
    /\ gp > 0 => Len(G[gp]) = SumSeq(gcols)
Coef == << [q \in 1..(SumSeq(gcols) + 1) |-> q], [q \in 1..(SumSeq(gcols) + 1) |-> 3 - q] >>
Valued == LET V == ValueTensor(GGrids, Coef, <<2>>) IN
    gp > 0 => \A j \in 1..2 : V.data[Flat(V.shape, UnIdx(gsh, gp) \o <<j>>)] = FunAt(Coef, GPoint(GGrids, UnIdx(gsh, gp)))[j]
=============================================================================
