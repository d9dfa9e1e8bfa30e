---------------------------- MODULE TraceBig ----------------------------
EXTENDS Big, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == IF IOEnv.DIAG = "1" THEN PrintT(<<"EXPECTED", ev'>>) ELSE TRUE
TInit == Init /\ i = 1
TNext == /\ i <= Len(Trace)
         /\ LET e == Trace[i] IN
              /\ Act(e.op, e.a)
              /\ Diag
              /\ ev'.r = e.r /\ ev'.o = e.o
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<vars, i>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
