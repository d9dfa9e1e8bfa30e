------------------------------ MODULE TraceLife ------------------------------
EXTENDS Life, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == IF IOEnv.DIAG = "1" THEN PrintT(<<"EXPECTED", ev'>>) ELSE TRUE
TInit == Init /\ i = 1
TNext == /\ i <= Len(Trace)
         /\ LET e == Trace[i]
                l == IF DOMAIN e.o = {} THEN <<<<>>, <<>>>> ELSE e.o.l IN
            Acts(IOEnv.COMP, e.op, e.a, l[1], l[2])
         /\ Diag
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<vars, i>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
