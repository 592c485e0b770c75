------------------------------- MODULE Script ------------------------------
(* Runs behaviours of the heap machine.  Case c (chosen by the initial           *)
(* predicate of the generator module) stands for a script, a sequence of         *)
(* requests; the machine executes every request whose outcome the statement       *)
(* settles and refuses the others.  A finished behaviour is written as one JSON    *)
(* line.                                                                          *)
EXTENDS Qeep

CONSTANTS ScriptOf(_),    \* ScriptOf(c): the sequence of requests
          Mut             \* 1: the caller overwrites its slices after every request; 2: after some; 0: never

VARIABLES c, script, pc, h

vars == <<c, script, pc, h>>
Init0 == /\ script = <<>>
         /\ pc = 0
         /\ h = EmptyHeap

WithMut(sc) == IF Mut = 0 THEN sc
               ELSE Flat([j \in 1..Len(sc) |-> IF Mut = 1 \/ (7 * j * j + 3 * Len(sc)) % 5 < 2 THEN <<sc[j], Mutate>> ELSE <<sc[j]>>])

Load == /\ pc = 0
        /\ script' = WithMut(ScriptOf(c))
        /\ pc' = 1
        /\ UNCHANGED <<c, h>>

(* (existential quantification over a singleton makes TLC evaluate once) *)
Step == /\ pc > 0 /\ pc <= Len(script)
        /\ \E h2 \in {IF Enabled(h, script[pc]) THEN Exec(h, script[pc]) ELSE Refuse(h, script[pc])} : h' = h2
        /\ pc' = pc + 1
        /\ UNCHANGED <<c, script>>

Finish == /\ pc > Len(script) /\ script # <<>>
          /\ PrintT(ToJson([case |-> c, ev |-> h.log]))
          /\ pc' = -1 /\ script' = <<>> /\ h' = EmptyHeap
          /\ UNCHANGED c

Next == Load \/ Step \/ Finish

(* a case is deterministic: its state is identified by case and position *)
View == <<c, pc>>

Inv == HeapOK(h)
=============================================================================
