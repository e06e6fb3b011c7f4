------------------------------- MODULE MCIds -------------------------------
EXTENDS Ids
MCValue == {<<a, b>> : a \in {0, 1, 171}, b \in {0, 255}}
MCText == {<<48, 49, 97, 70>>, <<48, 49, 97, 71>>, <<48, 49, 97>>, <<32, 49, 97, 70>>, <<>>, <<48, 120, 49, 49>>}
Bound == Cardinality(issued) <= 1
=============================================================================
