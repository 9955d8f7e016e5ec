------------------------------ MODULE GridSpec ------------------------------
(* Tensor grids (C15).  grids[k] is a sequence of points (each a sequence of *)
(* coordinates); the full grid enumerates the product with the first         *)
(* dimension fastest; the sparse grid follows its list of multi-indices.     *)
EXTENDS VBase
GShape(grids) == [k \in 1..Len(grids) |-> Len(grids[k])]
GPoint(grids, ix) == FoldLeft(LAMBDA a, k: a \o grids[k][ix[k]], <<>>, Iota(Len(grids)))
FullGrid(grids) == LET sh == GShape(grids) IN [p \in 1..Size(sh) |-> GPoint(grids, UnIdx(sh, p))]
SparseGrid(grids, inds) == [p \in 1..Len(inds) |-> GPoint(grids, inds[p])]
(* test functions: out[j](x) = c[j][1] + sum c[j][k+1] x_k + x_1 x_d          *)
FunAt(c, x) == [j \in 1..Len(c) |-> c[j][1] + SumTo(Len(x), LAMBDA k: c[j][k + 1] * x[k]) + x[1] * x[Len(x)]]
(* tensor of values: entry (ix, j) = component j at the grid point ix        *)
ValueTensor(grids, c, outshape) ==
    LET sh == GShape(grids)
        n == Size(sh)
        G == FullGrid(grids)
    IN [shape |-> sh \o outshape,
        data |-> [p \in 1..(n * Len(c)) |-> FunAt(c, G[((p - 1) % n) + 1])[((p - 1) \div n) + 1]]]
=============================================================================
