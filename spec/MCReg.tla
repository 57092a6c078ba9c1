------------------------------- MODULE MCReg --------------------------------
EXTENDS RegImpl
=============================================================================
