------------------------------ MODULE MCErrors ------------------------------
EXTENDS Errors
U1(s) == [i \in DOMAIN s |-> s[i] * V]
\* regions of two members: plain ones with any forecasts, also undefined, and
\* constant training data; scaled ones with members of different range
Plain2(OBS, FCS) == [obs : {<<U1(a), U1(b)>> : a, b \in OBS}, train : {<<U1(<<1, 4, 2>>), U1(<<6, 6, 9>>)>>, <<U1(<<5, 5>>), U1(<<0, 2>>)>>},
                     lo : {<<>>}, rg : {<<>>}, fcs : {<<a, b>> : a, b \in FCS}]
Scaled2(FCS) == [obs : {<<U1(<<3, 4>>), U1(<<9, 5>>)>>}, train : {<<U1(<<2, 4, 2>>), U1(<<5, 9, 9>>)>>},
                 lo : {<<2, 5>>}, rg : {<<2, 4>>}, fcs : {<<a, b>> : a, b \in FCS}]
UU == <<Undef, Undef>>
GEN == Plain2({<<3, 5>>, <<0, 1>>}, {<<32, 80>>, <<0, 16>>, UU}) \cup Scaled2({<<8, 16>>, <<4, 12>>, UU})
GENDEEP == Plain2({<<3, 5>>, <<0, 1>>, <<7, 0>>}, {<<32, 80>>, <<0, 16>>, <<48, 80>>, UU}) \cup Scaled2({<<8, 16>>, <<4, 12>>, <<0, 0>>, UU})
GENQ == Plain2({<<3, 5>>}, {<<32, 80>>, <<0, 16>>, UU}) \cup Scaled2({<<8, 16>>, <<4, 12>>, UU})
Other == [obs |-> <<U1(<<3>>), U1(<<8>>), U1(<<1>>)>>, train |-> <<U1(<<1, 4>>), U1(<<6, 6>>), U1(<<2, 3>>)>>, lo |-> <<>>, rg |-> <<>>,
          fcs |-> <<U1(<<2>>), <<Undef>>, U1(<<0>>)>>]
QUICKWORLDS == {<<a, Other>> : a \in GEN}
DEEPWORLDS == {<<a, b>> : a \in GENQ, b \in GENQ} \cup {<<a, Other>> : a \in GENDEEP}
=============================================================================
