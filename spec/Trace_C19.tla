------------------------------ MODULE Trace_C19 ----------------------------
(* Accepts exactly the recorded histories of accuracy metrics that the              *)
(* specification allows.                                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, ms
Init == i = 1 /\ ms = [o \in 1..2 |-> [total |-> 0, correct |-> 0]]

(* Result in millionths, rounded *)
ResOK(m, r) == IF m.total = 0 THEN r = 0
               ELSE LET d == m.total * r - m.correct * 1000000 IN 2 * d <= 2 * m.total /\ 2 * d >= -2 * m.total

Step == /\ i <= Len(TraceLog)
        /\ LET e == TraceLog[i] IN
           \/ /\ e.new
              /\ ms' = [ms EXCEPT ![e.o] = [total |-> 0, correct |-> 0]]
           \/ /\ ~e.new /\ e.m >= 0 /\ ~e.rej
              /\ ms' = [ms EXCEPT ![e.o] = [total |-> @.total + e.n, correct |-> @.correct + e.m]]
              /\ ResOK(ms'[e.o], e.res)
           \/ /\ ~e.new /\ e.m < 0 /\ e.rej
              /\ ResOK(ms[e.o], e.res)
              /\ UNCHANGED ms
        /\ i' = i + 1
Next == Step
Bounded == \A o \in 1..2 : 0 <= ms[o].correct /\ ms[o].correct <= ms[o].total
Accepted == TLCGet("stats").diameter > Len(TraceLog)
=============================================================================
