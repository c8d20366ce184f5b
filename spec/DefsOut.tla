------------------------------ MODULE DefsOut ------------------------------
(* Evaluates Defs on a file of abstract definitions and writes the shapes of  *)
(* the classes they give rise to, and the format table, for the harness and   *)
(* for GenPacket.                                                              *)
EXTENDS Defs, Json, IOUtils
Shapes == ShapesOf(JsonDeserialize(IOEnv.DEFS))
ASSUME JsonSerialize(IOEnv.SHAPES, [shapes |-> Shapes, types |-> TypeDefs])
ASSUME JsonSerialize(IOEnv.SHAPES \o ".closed", [i \in 1..Len(Shapes) |-> Closed(Shapes[i])])
==============================================================================
