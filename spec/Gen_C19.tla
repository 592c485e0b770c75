------------------------------- MODULE Gen_C19 -----------------------------
(* Histories of accuracy metrics: every history up to Depth calls over small          *)
(* batches and every kind of rejected call (one object, and two objects in one          *)
(* program), random long histories, and the same data accumulated in two different     *)
(* splits.                                                                             *)
EXTENDS Accuracy, Rng, Json

CONSTANTS Seed, Depth1, Depth2, NRandom, NSplit, NBig

VARIABLES c, pc, ms, hist      \* case, position, metric objects, calls made: <<object, call>>
vars == <<c, pc, ms, hist>>

Bt(pat, rep) == [k |-> "ok", pat |-> pat, rep |-> rep]
Rj(k) == [k |-> k, pat |-> << <<3, 3>>, <<3, 10>> >>, rep |-> 1]
Eq_ == <<3, 3>>
Ne_ == <<3, 10>>
SmallBatches == {Bt(p, 1) : p \in UNION {[1..n -> {Eq_, Ne_}] : n \in 1..2}}
                \cup {Bt(<<Eq_, Eq_, Ne_>>, 1), Bt(<<Ne_, Ne_, Ne_, Eq_>>, 1), Bt(<<Eq_>>, 3)}
CallsA == SmallBatches \cup {Rj(Rejected[j]) : j \in 1..Len(Rejected)}
CallsB == {Bt(<<Eq_>>, 1), Bt(<<Ne_>>, 1), Bt(<<Eq_, Ne_, Ne_>>, 1), Rj("nilp"), Rj("longer"), Rj("rank2")}

(* ---- random calls -------------------------------------------------------------- *)
RPair(r, k) == LET a == RRange(r, k, 1, NLabels)
                   b == CASE RInt(r, k + 1, 6) < 3 -> a
                          [] RInt(r, k + 1, 6) = 3 -> IF a % 2 = 1 THEN a + 1 ELSE a - 1
                          [] OTHER -> RRange(r, k + 2, 1, NLabels)
               IN IF PairOK(<<a, b>>) THEN <<a, b>> ELSE <<a, 1>>
RBatch(r) == LET n == RPick(r, 1, <<1, 1, 2, 3, 5, 8, 13, 33>>)
                 rep == RPick(r, 2, <<1, 1, 1, 1, 1, 1, 2, 3, 7, 50, 300>>)
             IN Bt([j \in 1..n |-> RPair(RMix(r, j), 3)], rep)
RCall(r) == IF RChance(r, 9, 1, 3) THEN [RBatch(RMix(r, 8)) EXCEPT !.k = RPick(r, 7, Rejected)] ELSE RBatch(RMix(r, 8))
RHist(i) == LET r == RSeed(Seed, i)  n == RRange(r, 1, 1, 40) IN
            [j \in 1..n |-> <<RInt(RMix(r, j), 1, 3) + 1, RCall(RMix(r, j))>>]

(* one data set, object 1 gets it in one split and object 2 in another, with rejected    *)
(* calls in between                                                                     *)
Cut(r, data) ==          \* data cut into consecutive batches
  LET f == FoldLeft(LAMBDA acc, j : IF acc = <<>> \/ RChance(r, j, 1, 4) THEN Append(acc, <<data[j]>>)
                                    ELSE [acc EXCEPT ![Len(acc)] = Append(@, data[j])],
                    <<>>, [j \in 1..Len(data) |-> j])
  IN [j \in 1..Len(f) |-> Bt(f[j], 1)]
SplitHist(i) ==
  LET r == RSeed(Seed, 5000 + i)
      data == [j \in 1..RRange(r, 1, 1, 40) |-> RPair(RMix(r, j), 3)]
      one(o, q, b) == FoldLeft(LAMBDA acc, j : (IF RChance(q, 100 + j, 1, 4) THEN Append(acc, <<o, Rj(RPick(q, 200 + j, Rejected))>>) ELSE acc) \o <<<<o, b[j]>>>>,
                               <<>>, [j \in 1..Len(b) |-> j])
      b2 == IF RBool(r, 2) THEN [j \in 1..Len(data) |-> Bt(<<data[j]>>, 1)] ELSE Reverse(Cut(RMix(r, 5), data))
  IN one(1, RMix(r, 3), Cut(RMix(r, 4), data)) \o one(2, RMix(r, 6), b2)
     \o <<<<3, Bt(data, 1)>>>> \o (IF RBool(r, 3) THEN <<<<4, Bt(data, 3)>>>> ELSE <<>>)

(* many positions: single batches and totals beyond 2^8, 2^16 and 2^24 *)
BigHist(i) ==
  LET r == RSeed(Seed, 9000 + i)
      huge == i = 1
      n == IF huge THEN 19 ELSE RRange(r, 2, 3, 9)
      one(j) == LET q == RMix(r, 10 + j) IN
        IF huge /\ j <= 17 THEN Bt(IF j = 9 THEN <<Eq_, Ne_>> ELSE <<Eq_>>, IF j = 9 THEN 500001 ELSE 1000000)
        ELSE Bt([k \in 1..RPick(q, 1, <<1, 2, 3, 7>>) |-> RPair(RMix(q, k), 3)], RPick(q, 2, <<1, 30, 255, 256, 257, 8191, 11000, 33000, 65535, 65537>>))
  IN [j \in 1..n |-> <<IF huge THEN 1 ELSE RInt(RMix(r, j), 1, 2) + 1, IF RChance(RMix(r, j), 5, 1, 6) /\ ~(huge /\ j <= 17) THEN Rj(RPick(r, j, Rejected)) ELSE one(j)>>]

(* ---- machine ------------------------------------------------------------------------ *)
Init == /\ pc = 0 /\ hist = <<>> /\ ms = [o \in 1..4 |-> M0]
        /\ \/ \E k \in {"one", "two"} : c = [k |-> k, i |-> 0]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ \E i \in 1..NSplit : c = [k |-> "split", i |-> i]
           \/ \E i \in 1..NBig : c = [k |-> "many", i |-> i]

Call(o, x) == /\ ms' = [ms EXCEPT ![o] = After(@, x)]
              /\ hist' = Append(hist, <<o, x>>)

Event(e, m) == [t |-> "acc", o |-> e[1], k |-> e[2].k, pat |-> e[2].pat, rep |-> e[2].rep, ok |-> e[2].k = "ok", total |-> m.total, correct |-> m.correct]
Emit(hh) ==
  LET st == FoldLeft(LAMBDA a, e : LET m == After(a.ms[e[1]], e[2]) IN
                        [ms |-> [a.ms EXCEPT ![e[1]] = m], ev |-> Append(a.ev, Event(e, m))],
                     [ms |-> [o \in 1..4 |-> M0], ev |-> <<>>], hh)
  IN PrintT(ToJson([case |-> c, ev |-> st.ev]))

Explore == /\ c.k \in {"one", "two"} /\ pc < (IF c.k = "one" THEN Depth1 ELSE Depth2)
           /\ IF c.k = "one" THEN \E x \in CallsA : Call(1, x) ELSE \E o \in 1..2 : \E x \in CallsB : Call(o, x)
           /\ pc' = pc + 1 /\ UNCHANGED c
           /\ (pc' = (IF c.k = "one" THEN Depth1 ELSE Depth2) => Emit(hist'))
Run == /\ c.k \in {"rnd", "split", "many"} /\ pc = 0
       /\ \E hh \in {IF c.k = "rnd" THEN RHist(c.i) ELSE IF c.k = "many" THEN BigHist(c.i) ELSE SplitHist(c.i)} :
             /\ hist' = hh
             /\ ms' = FoldLeft(LAMBDA a, e : [a EXCEPT ![e[1]] = After(@, e[2])], ms, hh)
             /\ Emit(hh)
       /\ pc' = 1 /\ UNCHANGED c
Next == Explore \/ Run

Of(o) == [j \in 1..Len(SelectSeq(hist, LAMBDA e : e[1] = o)) |-> SelectSeq(hist, LAMBDA e : e[1] = o)[j][2]]
Inv == /\ \A o \in 1..4 : Sound(ms[o], Of(o))
       /\ c.k = "split" /\ pc = 1 => ms[1] = ms[2] /\ ms[2] = ms[3]      \* independent of the split
(* a rejected call changes nothing *)
Frame == [][ \A o \in 1..4 : (\A j \in (Len(hist) + 1)..Len(hist') : hist'[j][1] # o \/ hist'[j][2].k # "ok") => ms'[o] = ms[o] ]_vars
=============================================================================
