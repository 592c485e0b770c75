------------------------------ MODULE Gen_C18 -----------------------------
(* Emits the configurations and the schedule of calls.                               *)
EXTENDS Initializers, TLC, Json
CONSTANTS Seed, NDrawn, NSmall, NLarge, NHuge
VARIABLES k, ncfg
NCalls == NSmall + NLarge + NHuge
Init == /\ k = 0
        /\ \E cfs \in {TLCEval(ConfigsOf(Seed, NDrawn))} :
              /\ ncfg = Len(cfs)
              /\ \A c \in 1..Len(cfs) : PrintT(ToJson([cfg |-> c, conf |-> cfs[c]]))
Next == /\ k < NCalls
        /\ k' = k + 1 /\ UNCHANGED ncfg
        /\ PrintT(ToJson([k |-> k', call |-> CallOf(Seed, k', ncfg, NSmall, NLarge)]))
=============================================================================
