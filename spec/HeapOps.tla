------------------------------- MODULE HeapOps -------------------------------
(* The objects of a program and the operations of the library: which kinds   *)
(* of operands an operation takes and what it may write.  No operation of    *)
(* this table works in place: its only effect is a new object.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
O(n, a, r) == [n |-> n, a |-> a, r |-> r]
(* kinds: full, sparse, canon, tbt (tree based), diag: tensors of a fixed    *)
(* shape; dt: dimension trees; mi: multi-index sets; tr: truncation tools;   *)
(* vecs, mats, mets: lists of vectors, matrices, metrics per mode; inds:     *)
(* rows of indices; perm: a permutation of the modes; dims: a set of modes;  *)
(* dcs: a small multi-index set; arrs: grids; grid; pb: a univariate basis; bases; *)
(* ftp, stp: full and sparse product bases; fba: function of a basis; ft:    *)
(* functional tensor; pts, pts1: points; any: anything else                  *)
Tens == {"full", "sparse", "canon", "tbt", "diag"}
OpsOf(k) ==        \* operations of every tensor format
  << O(k \o ".add", <<k, k>>, k), O(k \o ".sub", <<k, k>>, k), O(k \o ".neg", <<k>>, k), O(k \o ".scale", <<k>>, k), O(k \o ".dot", <<k, k>>, "any"),
     O(k \o ".norm", <<k>>, "any"), O(k \o ".full", <<k>>, "full"), O(k \o ".numpy", <<k>>, "any"), O(k \o ".storage", <<k>>, "any") >>
MapOps(k) ==
  << O(k \o ".tvp", <<k, "vecs">>, "any"), O(k \o ".tmp", <<k, "mats">>, "any"), O(k \o ".tmpdiag", <<k, "mats">>, "any"), O(k \o ".at", <<k, "inds">>, "any"),
     O(k \o ".tmp1", <<k, "mats">>, "any") >>
MetricOps(k) == << O(k \o ".dotmetric", <<k, k, "mets">>, "any"), O(k \o ".except", <<k, k, "mets">>, "any"), O(k \o ".kron", <<k, k>>, "any"), O(k \o ".cat", <<k, k>>, "any") >>
OpSeq ==
  OpsOf("full") \o << O("sparse.add", <<"sparse", "sparse">>, "sparse"), O("sparse.dot", <<"sparse", "sparse">>, "any"), O("sparse.norm", <<"sparse">>, "any"), O("sparse.full", <<"sparse">>, "full"), O("sparse.storage", <<"sparse">>, "any") >> \o OpsOf("canon") \o OpsOf("tbt") \o OpsOf("diag")
  \o MapOps("full") \o MapOps("sparse") \o MapOps("canon") \o MapOps("tbt")
  \o MetricOps("full") \o MetricOps("tbt") \o << O("sparse.dotmetric", <<"sparse", "sparse", "mets">>, "any") >>
  \o << O("full.sparse", <<"full">>, "sparse"), O("full.tree", <<"full">>, "tbt"), O("canon.tree", <<"canon", "dt">>, "tbt"), O("canon.orth", <<"canon">>, "tucker"), O("tucker.full", <<"tucker">>, "full"),
        O("diag.tree", <<"diag", "dt">>, "any"), O("diag.sparse", <<"diag">>, "any"), O("diag.orth", <<"diag">>, "any"),
        O("full.hadamard", <<"full", "full">>, "full"), O("full.transpose", <<"full", "perm">>, "any"), O("full.itranspose", <<"full", "perm">>, "any"),
        O("sparse.transpose", <<"sparse", "perm">>, "any"), O("full.reshape", <<"full">>, "any"), O("sparse.reshape", <<"sparse">>, "any"),
        O("full.matricize", <<"full", "dims">>, "any"), O("full.reducesum", <<"full", "dims">>, "any"), O("full.reducemean", <<"full", "dims">>, "any"),
        O("full.tensordot", <<"full", "full", "dims">>, "any"), O("full.tdevaldiag", <<"full", "full">>, "any"), O("full.outerdiag", <<"full", "full">>, "any"),
        O("full.evaldiag", <<"full">>, "any"), O("full.orth", <<"full">>, "any"), O("full.pca", <<"full">>, "any"), O("full.apca", <<"full", "dims">>, "any"),
        O("full.sv", <<"full">>, "any"), O("full.subtensor", <<"full">>, "any"), O("full.copy", <<"full">>, "full"), O("full.diagmat", <<"full", "mets">>, "any"),
        O("canon.reducesum", <<"canon", "dims">>, "any"), O("canon.grad", <<"canon", "mats">>, "any"), O("canon.rep", <<"canon">>, "any"),
        O("tbt.hadamard", <<"tbt", "tbt">>, "tbt"), O("tbt.reducesum", <<"tbt", "dims">>, "any"), O("tbt.orth", <<"tbt">>, "tbt"), O("tbt.orthat", <<"tbt">>, "tbt"),
        O("tbt.gramians", <<"tbt">>, "any"), O("tbt.gramianat", <<"tbt">>, "any"), O("tbt.sv", <<"tbt">>, "any"), O("tbt.rank", <<"tbt">>, "any"), O("tbt.reprank", <<"tbt">>, "any"),
        O("tbt.admissible", <<"tbt">>, "any"), O("tbt.sparsestorage", <<"tbt">>, "any"), O("tbt.changeroot", <<"tbt">>, "any"), O("tbt.permcost", <<"tbt">>, "any"),
        O("tbt.opttree", <<"tbt">>, "any"), O("tbt.permnodes", <<"tbt">>, "any"), O("tbt.optleaves", <<"tbt">>, "any"), O("tbt.permleaves", <<"tbt", "perm">>, "any"),
        O("tbt.inactivate", <<"tbt">>, "tbt"), O("tbt.activate", <<"tbt">>, "tbt"), O("tbt.evaldiag", <<"tbt">>, "any"), O("tbt.squeeze", <<"tbt">>, "any"),
        O("tbt.remove", <<"tbt">>, "tbt"), O("tbt.grad", <<"tbt", "mats">>, "any"), O("tbt.dmrg", <<"tbt", "mats">>, "any"), O("tbt.copy", <<"tbt">>, "tbt"),
        O("tbt.div", <<"tbt">>, "tbt"), O("tbt.diagmat", <<"tbt", "mets">>, "any"), O("tbt.like", <<"tbt", "dt">>, "any") >>
  \o << O("tr.hosvd", <<"tr", "full">>, "tbt"), O("tr.hsvd", <<"tr", "full", "dt">>, "tbt"), O("tr.hsvdtree", <<"tr", "tbt">>, "tbt"), O("tr.ttsvd", <<"tr", "full">>, "tbt"),
        O("tr.truncate", <<"tr", "tbt">>, "tbt"), O("tr.svd", <<"tr", "full">>, "any") >>
  \o << O("dt.permute", <<"dt", "perm">>, "dt"), O("dt.ipermute", <<"dt", "perm">>, "dt"), O("dt.changeroot", <<"dt">>, "any"), O("dt.addchild", <<"dt">>, "any"),
        O("dt.sub", <<"dt">>, "any"), O("dt.queries", <<"dt">>, "any"), O("dt.eq", <<"dt", "dt">>, "any"), O("dt.layout", <<"dt">>, "any"), O("dt.withdims", <<"dt", "dims">>, "any") >>
  \o << O("mi.add", <<"mi", "mi">>, "mi"), O("mi.remove", <<"mi", "mi">>, "any"), O("mi.intersect", <<"mi", "mi">>, "any"), O("mi.product", <<"mi", "mi">>, "any"), O("mi.keepdims", <<"mi", "dims">>, "any"),
        O("mi.removedims", <<"mi", "dims">>, "any"), O("mi.sort", <<"mi">>, "mi"), O("mi.norms", <<"mi">>, "mi"), O("mi.margin", <<"mi">>, "mi"), O("mi.reduced", <<"mi">>, "mi"),
        O("mi.maximal", <<"mi">>, "mi"), O("mi.closed", <<"mi">>, "any"), O("mi.sub2ind", <<"mi">>, "any"), O("mi.shift", <<"mi">>, "mi"), O("mi.envelope", <<"mi">>, "any"), O("mi.le", <<"mi", "mi">>, "any"),
        O("mi.keep", <<"mi">>, "mi"), O("mi.get", <<"mi">>, "any"), O("mi.ind2sub", <<"perm">>, "any"), O("mi.bounded", <<"vecs">>, "any") >>
  \o << O("grid.new", <<"arrs">>, "grid"), O("grid.newsparse", <<"arrs", "dcs">>, "any"), O("grid.array", <<"grid">>, "any"), O("grid.at", <<"grid", "inds">>, "any"), O("grid.queries", <<"grid">>, "any") >>
  \o << O("pb.eval", <<"pb", "pts1">>, "any"), O("pb.der", <<"pb", "pts1">>, "any"), O("pb.derivative", <<"pb">>, "any"), O("pb.kron", <<"pb", "pb">>, "any"), O("pb.mean", <<"pb">>, "any"), O("pb.gram", <<"pb">>, "any"),
        O("pb.interp", <<"pb", "pts1">>, "any"), O("pb.magic", <<"pb", "pts1">>, "any"), O("pb.orth", <<"pb">>, "any"), O("pb.christoffel", <<"pb">>, "any"),
        O("bases.new", <<"pb", "pb">>, "any"), O("bases.eval", <<"bases", "pts">>, "any"), O("bases.der", <<"bases", "pts">>, "any"), O("bases.derivative", <<"bases">>, "any"), O("bases.transpose", <<"bases", "perm">>, "bases"),
        O("bases.keep", <<"bases", "dims">>, "any"), O("bases.remove", <<"bases", "dims">>, "any"), O("bases.gram", <<"bases">>, "any"), O("bases.mean", <<"bases">>, "any"), O("bases.kron", <<"bases", "bases">>, "any"),
        O("bases.one", <<"bases">>, "any"), O("bases.interp", <<"bases">>, "any"), O("bases.magic", <<"bases">>, "any"), O("bases.ftp", <<"bases">>, "ftp"), O("bases.stp", <<"bases", "dcs">>, "stp"), O("bases.eq", <<"bases", "bases">>, "any"), O("bases.orth", <<"bases">>, "any"),
        O("ftp.eval", <<"ftp", "pts">>, "any"), O("ftp.mean", <<"ftp">>, "any"), O("ftp.transpose", <<"ftp", "perm">>, "ftp"), O("ftp.keep", <<"ftp">>, "any"), O("ftp.interp", <<"ftp">>, "any"),
        O("stp.eval", <<"stp", "pts">>, "any"), O("stp.mean", <<"stp">>, "any"), O("stp.transpose", <<"stp", "perm">>, "stp"), O("stp.keep", <<"stp">>, "any"), O("stp.der", <<"stp", "pts">>, "any"), O("stp.derivative", <<"stp">>, "any"), O("stp.path", <<"stp">>, "any"),
        O("stp.keepbases", <<"stp", "dims">>, "any"), O("stp.gram", <<"stp">>, "any"),
        O("fba.new", <<"stp">>, "fba"), O("fba.eval", <<"fba", "pts">>, "any"), O("fba.add", <<"fba", "fba">>, "any"), O("fba.neg", <<"fba">>, "fba"), O("fba.scale", <<"fba">>, "fba"), O("fba.norm", <<"fba">>, "any"), O("fba.mean", <<"fba">>, "any"), O("fba.var", <<"fba">>, "any"), O("fba.cond", <<"fba">>, "any"), O("fba.der", <<"fba", "pts">>, "any"),
        O("fba.dot", <<"fba", "fba">>, "any"), O("fba.derivative", <<"fba">>, "any"),
        O("ft.new", <<"tbt", "bases">>, "any"), O("ft.newfull", <<"full", "bases">>, "ft"), O("ft.eval", <<"ft", "pts">>, "any"), O("ft.mean", <<"ft">>, "any"), O("ft.der", <<"ft", "pts">>, "any"), O("ft.grid", <<"ft", "arrs">>, "any"), O("ft.storage", <<"ft">>, "any"), O("ft.partial", <<"ft", "pts">>, "any"),
        O("meas.queries", <<"meas">>, "any"), O("meas.marginal", <<"meas", "dims">>, "any"), O("meas.transpose", <<"meas", "perm">>, "any"), O("meas.pdf", <<"meas", "pts">>, "any"), O("meas.gauss", <<"meas">>, "any") >>
Ops == {OpSeq[i] : i \in 1..Len(OpSeq)}
OpNames == {o.n : o \in Ops}
ArgsOf == [n \in OpNames |-> (CHOOSE o \in Ops : o.n = n).a]
=============================================================================
