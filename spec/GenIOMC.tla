------------------------------ MODULE GenIOMC ------------------------------
EXTENDS GenIO
MCBlocks == <<3, 7>>
=============================================================================
