---------------------------- MODULE MC_Analysis ----------------------------
EXTENDS Analysis
Two == <<[lab |-> <<0, 0, 1>>, rep |-> <<1, 3>>], [lab |-> <<0, 1, 1>>, rep |-> <<1, 2>>]>>
Three == <<[lab |-> <<0, 0, 1>>, rep |-> <<2, 3>>], [lab |-> <<0, 0, 0>>, rep |-> <<2>>], [lab |-> <<2, 1, 0>>, rep |-> <<3, 2, 1>>]>>
D1 == {<<<<0, a, b>>, <<a, 0, c>>, <<b, c, 0>>>> : a \in {1, 3}, b \in {2}, c \in {1, 4}}
E1 == {<<<<a, 2, 1>>, <<3, b, 0>>, <<1, 1, c>>>> : a \in {0, 1}, b \in {1, 2}, c \in {0, 2}}
DSmall == {<<<<0, 1, 3>>, <<1, 0, 2>>, <<3, 2, 0>>>>}
ESmall == {<<<<1, 2, 1>>, <<3, 1, 0>>, <<1, 1, 2>>>>}
=============================================================================
