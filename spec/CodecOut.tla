----------------------------- MODULE CodecOut -----------------------------
(* Writes the class table of Codec for the driver generator.               *)
EXTENDS CodecTable, Json, IOUtils
ASSUME JsonSerialize(IOEnv.OUT, [i \in 1..Len(Classes) |->
   [name |-> Classes[i].name, cxx |-> Classes[i].cxx, t |-> Classes[i].t, ind |-> Classes[i].ind,
    ms |-> [j \in 1..Len(Members(Classes[i])) |-> LET m == Members(Classes[i])[j] IN [k |-> m.k, m |-> m.m, n |-> m.n, rx |-> m.rx, off |-> m.off]]]])
=============================================================================
