----------------------------- MODULE WaiterMC -----------------------------
EXTENDS WaiterImpl
Bl(n, w, p) == [num |-> n, w |-> w, par |-> p]
Fork == <<Bl(11, 1, 0), Bl(11, 1, 0), Bl(12, 2, 1)>>
Two == <<Bl(11, 1, 0), Bl(12, 2, 1)>>
=============================================================================
