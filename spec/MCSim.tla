------------------------------- MODULE MCSim -------------------------------
EXTENDS Sim
CONSTANT Shape
SizesC == CASE Shape = 1 -> <<2, 1>> [] Shape = 2 -> <<1, 1, 1>> [] Shape = 3 -> <<2, 2>> [] OTHER -> <<2, 1, 1>>
=============================================================================
