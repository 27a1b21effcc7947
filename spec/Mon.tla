-------------------------------- MODULE Mon --------------------------------
(* Trace monitor. One record of the trace recorded from the real code per     *)
(* transition. Judge(st, r) is the specification's verdict on record r in     *)
(* specification state st: the successor specification state and the set of   *)
(* violated clauses. The monitor never blocks, so one run examines the whole  *)
(* trace and reports every violated clause with its position.                 *)
EXTENDS Num, TLC, Json, IOUtils
CONSTANTS St0, Judge(_, _)
VARIABLES mI, mSt, mBad, mNbad

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
MaxBad == 400

MonInit == mI = 0 /\ mSt = St0 /\ mBad = <<>> /\ mNbad = 0
RECURSIVE Setify(_, _)
Setify(k, S) == IF S = {} THEN <<>>
                ELSE LET c == CHOOSE c \in S : TRUE
                     IN <<[k |-> k, clause |-> c]>> \o Setify(k, S \ {c})
Step == /\ mI < N
        /\ LET rec == Trace[mI + 1]
               r == IF rec.ev \in {"raise", "timeout"}
                    THEN [st |-> mSt, bad |-> {rec.ev}] ELSE Judge(mSt, rec) IN
             /\ mSt' = r.st
             /\ mBad' = IF Len(mBad) < MaxBad THEN mBad \o Setify(mI + 1, r.bad) ELSE mBad
             /\ mNbad' = mNbad + Cardinality(r.bad)
        /\ mI' = mI + 1
Final == /\ mI = N
         /\ JsonSerialize(IOEnv.VOUT, [n |-> N, nbad |-> mNbad, bad |-> mBad])
         /\ mI' = N + 1 /\ UNCHANGED <<mSt, mBad, mNbad>>
MonNext == Step \/ Final
MonSpec == MonInit /\ [][MonNext]_<<mI, mSt, mBad, mNbad>>
(* every record was consumed *)
Consumed == TLCGet("stats").diameter = N + 2
=============================================================================
