#!/bin/bash
# mktrace.sh X [extra invariant]: writes specs/TraceX.tla and .cfg for a specification X
# that defines vars, ev, Init, Act(op, args) and TypeOK.
cd "$(dirname "$0")/../specs"
cat > Trace$1.tla <<T
---------------------------- MODULE Trace$1 ----------------------------
EXTENDS $1, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Diag == IF IOEnv.DIAG = "1" THEN PrintT(<<"EXPECTED", ev'>>) ELSE TRUE
TInit == Init /\\ i = 1
TNext == /\\ i <= Len(Trace)
         /\\ LET e == Trace[i] IN
              /\\ Act(e.op, e.a)
              /\\ Diag
              /\\ ev'.r = e.r /\\ ev'.o = e.o
         /\\ i' = i + 1
TSpec == TInit /\\ [][TNext]_<<vars, i>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
T
cat > Trace$1.cfg <<T
SPECIFICATION TSpec
POSTCONDITION Accepted
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
T
