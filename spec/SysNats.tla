------------------------------- MODULE SysNats -------------------------------
(* Enumerated scenarios for the real NATS clients: every sequence, of up to LEN  *)
(* steps, of what an owner does to its subscription and its inbox, followed by    *)
(* the same questions, while a program elsewhere publishes. Every message size    *)
(* of the catalogue goes through each way of publishing as well.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE n
Len0 == atoi(IOEnv.LEN)
Steps == {<<<<"sub", 1, 0>>>>, <<<<"sub", 1, 1>>>>, <<<<"sub", 2, 0>>>>, <<<<"sub", 0, 1>>>>,
          <<<<"qsub", 1, 1, 0>>>>, <<<<"qsub", 1, 1, 1>>>>, <<<<"qsub", 0, 1, 0>>>>, <<<<"qsub", 2, 0, 1>>>>,
          <<<<"newin">>>>, <<<<"connect">>>>, <<<<"fail", 2>>, <<"sub", 1, 1>>>>, <<<<"fail", 2>>, <<"qsub", 1, 1, 1>>>>, <<<<"fail", 4>>, <<"newin">>>>}
Seqs == UNION {[1..k -> Steps] : k \in 1..Len0}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o <<<<"sleep", 30>>>> \o Flat(Tail(s))
Tail0 == <<<<"subject">>, <<"inbox">>, <<"pub", 3, 1, -1>>, <<"next", 30>>, <<"next", 0>>, <<"nexti", 0>>>>
Owner(s) == [threads |-> <<[c |-> 0, ops |-> Flat(s) \o Tail0],
                           [c |-> -1, ops |-> <<<<"spub", 1, 2, 0>>, <<"sleep", 30>>, <<"spub", 2, 3, 0>>, <<"sleep", 30>>, <<"spub", 1, 4, 3>>>>]>>, clients |-> 1]
Sizes == {[threads |-> <<[c |-> 0, ops |-> <<<<"sub", 1, y>>, <<"newin">>, <<"pub", 1, m, r>>, <<"next", 100>>, <<"pub", 1, (m + 1) % 7, r>>, <<"serve", 100>>, <<"nexti", 30>>>>],
                         [c |-> 1, ops |-> <<<<"newin">>, <<"ask", 1, m, 100>>>>]>>, clients |-> 2] : m \in 0..6, r \in {-1, 0, 3}, y \in {0, 1}}
All == {Owner(s) : s \in Seqs} \cup Sizes
Init == n = 0
Next == n = 0 /\ n' = 1 /\ \A x \in All : PrintT("@" \o ToJson(x))
Spec == Init /\ [][Next]_n
=============================================================================
