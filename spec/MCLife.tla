------------------------------- MODULE MCLife -------------------------------
EXTENDS LifeImpl
Same(c) == 1
Own(c) == c
=============================================================================
