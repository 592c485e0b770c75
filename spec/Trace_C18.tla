----------------------------- MODULE Trace_C18 -----------------------------
(* Accepts the recorded history of calls of random constructors and initializers iff  *)
(* every single result has the shape, the tracked status and the support of its        *)
(* configuration, and the accumulated results of every configuration (and of every      *)
(* kind of distribution per rank) are those of independent draws from its distribution: *)
(*   hist   16 equally probable classes                                                 *)
(*   s1,s2  sums of z and z^2 - 1 over standardised values z, in hundredths             *)
(*   lag    4x4 quartile pairs of neighbouring elements                                 *)
(*   cross  4x4 quartile pairs of equal positions in two calls of the same configuration *)
(*   prev   the same for the call before, whatever its configuration                    *)
(*   pos    quartiles per position modulo 12                                            *)
(*   dup    values drawn before by the same configuration (as such / mirrored)           *)
(*   tail   |z| > 3 (normal)                                                            *)
EXTENDS Initializers, TLC, Json, IOUtils
CONSTANTS Seed, NDrawn, NSmall, NLarge, NHuge
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
N == Len(TraceLog)

VARIABLES i, acc,
          Configs, NCfg       \* constant

Zero(m) == [j \in 1..m |-> 0]
Acc0 == [n |-> 0, hist |-> Zero(16), s1 |-> 0, s2 |-> 0, lag |-> Zero(16), cross |-> Zero(16), prev |-> Zero(16),
         pos |-> Zero(48), dup |-> 0, mir |-> 0, tail |-> 0]
(* keys: configurations 1..NCfg, then (kind, rank), then kind                           *)
NKeys == NCfg + 12 + 2
Kind(c) == IF Configs[c].kind = "unif" THEN 0 ELSE 1
RankKey(c, rank) == NCfg + 1 + 6 * Kind(c) + (IF rank > 5 THEN 5 ELSE rank)
KindKey(c) == NCfg + 13 + Kind(c)
KeyKind(k) == IF k <= NCfg THEN Configs[k].kind
              ELSE IF k = NCfg + 13 \/ (k <= NCfg + 6) THEN "unif" ELSE "norm"

Sat(x) == IF x > 500000000 THEN 500000000 ELSE IF x < -500000000 THEN -500000000 ELSE x
Plus(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
Add(a, e) == [n |-> a.n + e.n, hist |-> Plus(a.hist, e.hist), s1 |-> Sat(a.s1 + e.s1), s2 |-> Sat(a.s2 + e.s2),
              lag |-> Plus(a.lag, e.lag), cross |-> Plus(a.cross, e.cross), prev |-> Plus(a.prev, e.prev),
              pos |-> Plus(a.pos, e.pos), dup |-> a.dup + e.dup, mir |-> a.mir + e.mir, tail |-> a.tail + e.tail]

Reject(what, x) == PrintT(<<"REJECT", what, x>>) /\ FALSE
Need(b, what, x) == IF b THEN TRUE ELSE Reject(what, x)

Single(k, e, call) ==
  LET cf == Configs[call.c]
      id == [call |-> k, conf |-> cf.f, args |-> cf.args, shape |-> call.sh]
  IN /\ Need(~e.err, "refused or panicked", id)
     /\ Need(call.bad => e.badrej, "invalid shape accepted", id)
     /\ Need(e.sh = call.sh, "shape", <<id, e.sh>>)
     /\ Need(e.tr = cf.tr, "tracked status", <<id, e.tr>>)
     /\ Need(e.new, "not a new tensor", id)
     /\ Need(e.kept, "an earlier result changed", id)
     /\ Need(e.oos = 0, "elements outside the support", <<id, e.oos>>)
     /\ Need(e.n = FoldLeft(LAMBDA a, b : a * b, 1, call.sh), "number of elements", id)

DupMax(k, n) == IF KeyKind(k) = "unif" THEN 8 ELSE 16 + (((n \div 1000) * (n \div 1000)) \div 1000)
Judge(k) ==
  LET a == acc[k]
      id == IF k <= NCfg THEN [conf |-> Configs[k].f, args |-> Configs[k].args, n |-> a.n]
            ELSE [conf |-> "all of kind " \o KeyKind(k), args |-> <<k - NCfg>>, n |-> a.n]
      own == k <= NCfg
  IN IF a.n = 0 \/ (own /\ ~Configs[k].stat) THEN TRUE ELSE
        /\ Need(Even(8, a.hist, a.n, 16), "distribution of the values", <<id, a.hist>>)
        /\ Need(Abs(a.s1) <= 100 * Band(8, a.n, 1, 1), "mean", <<id, a.s1>>)
        /\ Need(Abs(a.s2) <= (IF KeyKind(k) = "norm" THEN 100 * Band(8, a.n, 2, 1) ELSE 100 * Band(8, a.n, 4, 5)), "standard deviation", <<id, a.s2>>)
        /\ Need(Even(9, a.lag, SumSeq(a.lag), 16), "neighbouring elements are not independent", <<id, a.lag>>)
        /\ Need(Even(9, a.cross, SumSeq(a.cross), 16), "successive calls are not independent", <<id, a.cross>>)
        /\ Need(Even(9, a.prev, SumSeq(a.prev), 16), "calls of different constructors are not independent", <<id, a.prev>>)
        /\ \A q \in 0..11 : LET cs == SubSeq(a.pos, 4 * q + 1, 4 * q + 4) IN
              Need(Even(8, cs, SumSeq(cs), 4), "distribution depends on the position", <<id, q, cs>>)
        /\ IF own THEN Need(a.dup <= DupMax(k, a.n), "values drawn repeatedly", <<id, a.dup>>) ELSE TRUE
        /\ IF own THEN Need(a.mir <= 2 * DupMax(k, a.n), "mirrored values drawn repeatedly", <<id, a.mir>>) ELSE TRUE
        /\ IF KeyKind(k) = "norm" THEN Need(Abs(a.tail - (27 * a.n) \div 10000) <= 1 + Band(8, a.n, 27, 10000), "tails of the normal distribution", <<id, a.tail>>) ELSE TRUE

Init == /\ i = 1
        /\ Configs = TLCEval(ConfigsOf(Seed, NDrawn)) /\ NCfg = Len(Configs)
        /\ acc = TLCEval([k \in 1..NKeys |-> Acc0])
Event == /\ i <= N
         /\ \E e \in {TraceLog[i]}, call \in {CallOf(Seed, i, NCfg, NSmall, NLarge)} :
            /\ e.k = i
            /\ Single(i, e, call)
            /\ IF Configs[call.c].stat
               THEN \E x \in {call.c}, y \in {RankKey(call.c, Len(e.sh))}, z \in {KindKey(call.c)} :
                      acc' = [acc EXCEPT ![x] = TLCEval(Add(@, e)), ![y] = TLCEval(Add(@, e)), ![z] = TLCEval(Add(@, e))]
               ELSE UNCHANGED acc
         /\ i' = i + 1
Final == /\ i > N /\ i <= N + NKeys
         /\ Judge(i - N)
         /\ i' = i + 1 /\ UNCHANGED acc
Next == (Event \/ Final) /\ UNCHANGED <<Configs, NCfg>>
V == i
Complete == N = NSmall + NLarge + NHuge
Accepted == /\ Complete
            /\ TLCGet("stats").diameter > N + Len(ConfigsOf(Seed, NDrawn)) + 14
=============================================================================
