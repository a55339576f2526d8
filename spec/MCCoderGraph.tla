---------------------------- MODULE MCCoderGraph ----------------------------
EXTENDS CoderGraph
Small == UNION {[1..n -> 1..4] : n \in 1..3}
AllShapes == {s \in Small : NIn(s) <= 4}
FiveShapes == {s \in Small : NIn(s) = 5 /\ Len(s) <= 3}
ValidShapes == {<<1, 1, 1, 4>>, <<1, 2, 1, 3>>, <<2, 2, 2>>, <<3, 1, 3>>, <<1, 1, 2, 2>>, <<2, 1, 1, 2>>}
LinearShapes == {[x \in 1..n |-> 1] : n \in {4, 5, 8, 16, 32}}
=============================================================================
