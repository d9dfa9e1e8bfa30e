--------------------------- MODULE TraceAtomicBits ---------------------------
EXTENDS Linear, AtomicBits, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == IF IOEnv.DIAG = "1" THEN PrintT(<<"EXPECTED", ev'>>) ELSE TRUE
TInit == Init /\ i = 1
TNext == /\ i <= Len(Trace)
         /\ LET e == Trace[i] IN
              CASE e.op = "init" -> Begin(e.a)
                [] e.op = "call" -> Call(e.a[1], e.a[2], e.a[3])
                [] e.op = "ret"  -> Ret(e.a[1]) /\ Diag /\ ev'.r = e.r /\ ev'.mo = e.mo
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_<<vars, i>>
TView == <<cfg, val, open, i>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
