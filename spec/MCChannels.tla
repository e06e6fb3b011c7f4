----------------------------- MODULE MCChannels -----------------------------
EXTENDS Channels
MCVal == {<<1, 0>>, <<1, 1>>, <<2, 0>>}
Bound == Len(obj) <= 3
=============================================================================
