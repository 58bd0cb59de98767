------------------------------- MODULE Json -------------------------------
ToJson(value) == CHOOSE text : text \in STRING
=============================================================================
