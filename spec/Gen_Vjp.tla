------------------------------- MODULE Gen_Vjp -----------------------------
(* One application of every differentiable operation, back-propagated through an *)
(* arbitrary upstream weighting: y = op(...); z = y * G; BackPropagate(z).        *)
(* Group "C02": no operand is expanded; "C07": at least one operand is expanded by   *)
(* broadcasting, implicitly or through Broadcast; "C15": activations.                *)
EXTENDS Prog

CONSTANTS Seed, Group, NRandom, NProg, ExFrom, MaxEl, Big
\* ExFrom: 1 of ExFrom enumerated cases is run (seeded); MaxEl: elements of a sampled operand

DiffOps == IF Group = "C02"
           THEN UnaryOps \cup ArithOps \cup RedOps \cup ElOps \cup
                {"Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze",
                 "Flatten", "Dot", "MatMul", "Broadcast"}
           ELSE ArithOps \cup {"Dot", "MatMul", "Broadcast"}
OpSeq == SetToSeq(DiffOps)

NoExpansion(op, a) ==
  CASE op \in ArithOps \cup {"Dot"} -> a.ss[1] = a.ss[2]
    [] op = "MatMul" -> BatchOf(a.ss[1], 2) = BatchOf(a.ss[2], 2)
    [] op = "Broadcast" -> a.ss[1] = a.par.s
    [] OTHER -> TRUE
(* derivatives that mention the whole fibre in every element: fibres of more than 300 are left to Gen_Large *)
Affordable(op, a) == (op \in {"MaxAlong", "MinAlong", "VarAlong", "StdAlong"}) => a.ss[1][a.par.d + 1] <= 300
Wanted(op, a) == IF Group = "C02" THEN NoExpansion(op, a) ELSE ~NoExpansion(op, a)

(* every enumerated argument with every tracked subset of operands, thinned by a hash *)
Hash(a, T) == (Seed + FoldLeft(LAMBDA x, s : (31 * x + 7 + FoldLeft(LAMBDA y, d : 5 * y + d, 1, s)) % 10007, 1, a.ss)
                 + FoldLeft(LAMBDA x, rg : (17 * x + 3 * rg[1] + rg[2]) % 1009, 1, a.par.r)
                 + FoldLeft(LAMBDA x, d : (13 * x + d) % 1009, 1, a.par.s) + 11 * a.par.d + Cardinality(T) + 3 * Len(a.par.q))
Init == /\ Init0
        /\ \/ \E op \in DiffOps : \E a \in EnumArgs(op, Big) :
                 /\ Wanted(op, a)
                 /\ \E T \in (SUBSET (1..Len(a.ss))) \ {{}} :
                      /\ (ExFrom = 1 \/ Hash(a, T) % ExFrom = 0)
                      /\ c = [k |-> "ex", op |-> op, a |-> a, trk |-> T, same |-> FALSE, mid |-> FALSE, w |-> TRUE]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ \E i \in 1..NProg : c = [k |-> "prog", i |-> i]
           \/ \E op \in DiffOps : \E i \in 1..Len(BigArgs(op)) :
                 /\ Wanted(op, BigArgs(op)[i])
                 /\ (Big \/ Affordable(op, BigArgs(op)[i]))
                 /\ \E T \in {1..Len(BigArgs(op)[i].ss), {1 + (i % Len(BigArgs(op)[i].ss))}} : c = [k |-> "big", op |-> op, i |-> i, trk |-> T]

RndCase(i) ==
  LET op == OpSeq[1 + (i % Len(OpSeq))]
      r == RSeed(Seed, i)
      a == RArgs(op, r, IF RChance(r, 900, 1, 12) THEN 4 * MaxEl ELSE MaxEl, IF RChance(r, 901, 1, 6) THEN 6 ELSE 4, Group = "C07")
      n == Len(a.ss)
      S0 == {j \in 1..n : RChance(r, 910 + j, 2, 3)}
  IN [k |-> "rnd", op |-> op, a |-> a, trk |-> IF S0 = {} THEN {RRange(r, 920, 1, n)} ELSE S0,
      same |-> RChance(r, 921, 1, 6) /\ n > 1 /\ op # "Patch" /\ \A j \in 1..n : a.ss[j] = a.ss[1],
      mid |-> RChance(r, 922, 1, 3), w |-> RChance(r, 923, 9, 10)]

(* the script of a case: leaves, optionally an intermediate on top of each tracked *)
(* leaf, the operation, the weighting, the back-propagation.                        *)
(* An explicit expanding Broadcast announces the alternate expectation of the       *)
(* recorded finding KF-C07-explicit-broadcast (mean instead of sum over copies).     *)
Script1(k) ==
  LET n == IF k.same THEN 1 ELSE Len(k.a.ss)
      dom(j) == DomOf(k.op, k.a.par, j)
      leaves == [j \in 1..n |-> Leaf(k.a.ss[j], j \in k.trk \/ k.same, IF k.mid /\ dom(j) = "any" THEN "mid" ELSE dom(j))]
      mids == IF k.mid THEN [j \in 1..n |-> Op("Scale", <<j>>, PQ(<<1, 1>>))] ELSE <<>>
      base == IF k.mid THEN n ELSE 0
      in == IF k.same THEN [j \in 1..Len(k.a.ss) |-> base + 1] ELSE [j \in 1..n |-> base + j]
      y == base + n + 1
      os == ResultShape(k.op, k.a.ss, k.a.par)
      den == NEl(os) \div NEl(k.a.ss[1])
      alts == IF k.op = "Broadcast" /\ den > 1
              THEN [j \in 1..(base + 1) |-> AltReq("KF-C07-explicit-broadcast", j, 1, den)] ELSE <<>>
  IN alts \o leaves \o mids \o <<Op(k.op, in, k.a.par)>> \o
     (IF k.w THEN <<Leaf(os, FALSE, "G"), Op("Mul", <<y, y + 1>>, Par1), BP(y + 2)>> ELSE <<BP(y)>>)

(* programs in which expanded operands are reused and combined *)
ProgSeq == << "Add", "Sub", "Mul", "Div", "Add", "Mul", "Dot", "MatMul", "MatMul", "Tanh", "Transpose", "UnSqueeze", "Squeeze", "SumAlong", "Reshape", "Concat" >>
ProgScript(i) ==
  LET r == RSeed(Seed, 11 * i + 3)
      cf == [max |-> RPick(r, 800, <<8, 12, 18>>), bc |-> TRUE, dom |-> "w"]
      s0 == PLeaves(PStart, r, RRange(r, 803, 2, 3), 0, RPick(r, 802, <<2, 2, 3, 4>>), cf)
      s1 == PRun(s0, r, RRange(r, 804, 2, 6), ProgSeq, cf)
  IN Append(s1.rq, BP(PLast(s1)))

GenScript(cc) ==
  CASE cc.k = "rnd" -> Script1(RndCase(cc.i))
    [] cc.k = "prog" -> ProgScript(cc.i)
    [] cc.k = "big" -> Script1([k |-> "big", op |-> cc.op, a |-> BigArgs(cc.op)[cc.i], trk |-> cc.trk, same |-> FALSE, mid |-> FALSE, w |-> TRUE])
    [] OTHER -> Script1(cc)
=============================================================================
