---------------------------- MODULE MCStreamPool ----------------------------
EXTENDS StreamPool
\* Layouts
LSolid == <<<<2, 2, 2>>>>
LMixed == <<<<1, 2>>, <<2>>, <<1, 1, 1>>>>
LZero == <<<<0, 1, 0, 2, 0>>, <<0>>>>
LLong == <<<<1, 1, 1, 1, 1>>>>
LBig == <<<<3, 2, 4>>>>
LTwo == <<<<2, 1>>, <<1, 2>>>>
=============================================================================
