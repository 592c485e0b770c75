------------------------------- MODULE Gen_Fwd -----------------------------
(* Forward computations (C03-C06, C14): one application of every operation of a    *)
(* group on every small valid argument, on sampled larger ones, and on hand-picked  *)
(* big ones; and random programs over the group's operations.                       *)
EXTENDS Prog

CONSTANTS Seed, Group, NRandom, NProg, ExFrom, MaxEl, Big

GroupOps == CASE Group = "C03" -> UnaryOps \cup ArithOps \cup ElOps \cup CmpOps
              [] Group = "C04" -> {"MatMul", "Dot", "Transpose"}
              [] Group = "C05" -> RedOps
              [] Group = "C06" -> {"Slice", "Patch", "Concat", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast"}
OpSeq == SetToSeq(GroupOps)
ProgSeq == CASE Group = "C03" -> << "Scale", "Pow", "Sin", "Cos", "Tanh", "Exp", "Log", "Add", "Sub", "Mul", "Div", "Add", "Sub", "Mul", "ElMax", "ElMin",
                                    "Eq", "Ne", "Gt", "Ge", "Lt", "Le", "Transpose", "Slice", "Reshape" >>
             [] Group = "C04" -> << "MatMul", "Dot", "Transpose", "MatMul", "Slice", "MatMul", "Slice", "Patch", "Reshape", "Add", "UnSqueeze", "Concat" >>
             [] Group = "C05" -> << "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong", "Transpose", "Slice", "UnSqueeze", "Concat", "Broadcast" >>
             [] Group = "C06" -> << "Slice", "Patch", "Concat", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Transpose", "Slice", "Patch", "Concat" >>

Dom(op, par, j, v) ==
  CASE Group = "C05" -> (IF op \in {"VarAlong", "StdAlong"} THEN "var" ELSE IF op \in {"MaxAlong", "MinAlong"} THEN "any" ELSE "sum")
    [] OTHER -> DomOf(op, par, j)

Hash(a) == (Seed + FoldLeft(LAMBDA x, s : (31 * x + 7 + FoldLeft(LAMBDA y, d : 5 * y + d, 1, s)) % 10007, 1, a.ss)
                 + FoldLeft(LAMBDA x, rg : (17 * x + 3 * rg[1] + rg[2]) % 1009, 1, a.par.r)
                 + FoldLeft(LAMBDA x, d : (13 * x + d) % 1009, 1, a.par.s) + 11 * a.par.d + 3 * Len(a.par.q))

CtorSeq == << "Full", "Zeros", "Ones", "TensorOf" >>
FullVals == << <<3, 1>>, <<-1, 8>>, <<"1e300">>, <<"-5e-324">>, <<"0.1">>, <<0, 1>> >>

Init == /\ Init0
        /\ \/ \E op \in GroupOps : \E a \in EnumArgs(op, Big) :
                 /\ (ExFrom = 1 \/ Hash(a) % ExFrom = 0)
                 /\ c = [k |-> "ex", op |-> op, a |-> a]
           \/ \E op \in GroupOps : \E i \in 1..Len(BigArgs(op)) : c = [k |-> "big", op |-> op, i |-> i]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ \E i \in 1..NProg : c = [k |-> "prog", i |-> i]
           \/ /\ Group = "C06"
              /\ \/ \E v \in 1..4 : \E s \in Shp(0, 4, D3) : c = [k |-> "ctor", v |-> v, s |-> s]
                 \/ \E n \in (1..12) \cup {33, 64} : c = [k |-> "eye", n |-> n]
                 \/ \E i \in 1..Len(BigShapes) : c = [k |-> "ctor", v |-> 1 + (i % 4), s |-> BigShapes[i]]

(* leaves, the operation and its companions *)
Script1(op, a, r) ==
  LET n == Len(a.ss)
      same == n = 2 /\ a.ss[1] = a.ss[2] /\ op # "Patch" /\ RChance(r, 1, 1, 12)
      leaves == IF same THEN <<Leaf(a.ss[1], RBool(r, 2), Dom(op, a.par, 2, 1))>>
                ELSE [j \in 1..n |-> Leaf(a.ss[j], RChance(r, 1 + j, 1, 3),
                                             \* poles, points outside the domain of the function, overflows
                                             IF Group = "C03" /\ RChance(r, 60, 1, 3) THEN "any" ELSE Dom(op, a.par, j, 1))]
      in == IF same THEN <<1, 1>> ELSE [j \in 1..n |-> j]
      m == Len(leaves)
      y == m + 1
      os == ResultShape(op, a.ss, a.par)
      base == leaves \o <<Op(op, in, a.par)>>
  IN base \o
     (CASE op \in ArithOps /\ a.ss[1] # a.ss[2] ->
             << Op("Broadcast", <<in[1]>>, PS(os)), Op("Broadcast", <<in[2]>>, PS(os)), Op(op, <<y + 1, y + 2>>, Par1), SameReq(y, y + 3) >>
        [] op \in CmpOps -> << EqualsReq(in[1], in[2]), EqualsReq(in[1], in[1]), Op("Scale", <<in[1]>>, PQ(<<1, 1>>)), EqualsReq(y + 1, in[2]), EqualsReq(y, y),
                                  \* one element replaced
                                  Leaf([j \in 1..Len(a.ss[1]) |-> 1], FALSE, Dom(op, a.par, 1, 1)),
                                  Op("Patch", <<in[1], y + 2>>, PR([j \in 1..Len(a.ss[1]) |-> LET p == RInt(r, 20 + j, a.ss[1][j]) IN <<p, p + 1>>])),
                                  EqualsReq(in[1], y + 3), EqualsReq(y + 3, in[1]) >>
        [] op = "MatMul" /\ BatchOf(a.ss[1], 2) = BatchOf(a.ss[2], 2) /\ ~same ->
             << Op("Transpose", <<1>>, Par1), Op("Transpose", <<2>>, Par1), Op("MatMul", <<y + 2, y + 1>>, Par1), Op("Transpose", <<y>>, Par1) >>
        [] op \in RedOps -> << Scalar("Sum", 1), Scalar("Max", 1), Scalar("Min", 1), Scalar("Avg", 1), Scalar("Mean", 1), Scalar("Var", 1), Scalar("Std", 1),
                               Scalar("Sum", y), Scalar("Var", y), Scalar("Max", y), Scalar("Min", y) >>
        [] op = "Patch" -> << Op("Slice", <<y>>, PR([j \in 1..Len(a.ss[1]) |->
                                 LET f == FullRanges(a.par.r, a.ss[2]) IN <<f[j][1], f[j][1] + a.ss[2][j]>>])) >> 
        [] op = "Concat" -> [k \in 1..n |-> LET start == FoldLeft(LAMBDA s, mm : s + a.ss[mm][a.par.d + 1], 0, [mm \in 1..(k - 1) |-> mm]) IN
                                 Op("Slice", <<y>>, PR([j \in 1..(a.par.d + 1) |-> IF j = a.par.d + 1 THEN <<start, start + a.ss[k][j]>> ELSE <<0, 0>>]))]
        [] OTHER -> <<>>)

CtorScript(v, s) ==
  << IF v = 4 THEN Leaf(s, TRUE, "any") ELSE LeafVia(s, FALSE, CtorSeq[v], <<0, 1>>),
     IF v = 4 THEN Leaf(s, FALSE, "any") ELSE LeafVia(s, TRUE, CtorSeq[v], RPick(<<1, 2, 3>>, NEl(s) + Len(s), FullVals)) >>
  \o (IF v = 1 THEN [j \in 1..Len(FullVals) |-> LeafVia(s, j % 2 = 0, "Full", FullVals[j])] ELSE <<>>)

ProgScript(i) ==
  LET r == RSeed(Seed, 11 * i + 3)
      cf == [max |-> RPick(r, 800, <<8, 24, 48>>), bc |-> RBool(r, 801), dom |-> IF Group = "C06" THEN "any" ELSE "w"]
      rank == RPick(r, 802, <<2, 2, 3, 4>>)
      s0 == PLeaves(PStart, r, RRange(r, 803, 1, 3), IF Group = "C04" THEN 2 ELSE 1, rank, cf)
  IN PRun(s0, r, RRange(r, 804, 2, 6), ProgSeq, cf).rq

GenScript(cc) ==
  CASE cc.k = "ex" -> Script1(cc.op, cc.a, RSeed(Seed, Hash(cc.a)))
    [] cc.k = "big" -> LET a == BigArgs(cc.op)[cc.i] IN Script1(cc.op, a, RSeed(Seed, cc.i))
    [] cc.k = "rnd" -> LET r == RSeed(Seed, cc.i)
                           op == OpSeq[1 + (cc.i % Len(OpSeq))]
                           a == RArgs(op, r, IF RChance(r, 900, 1, 10) THEN 8 * MaxEl ELSE MaxEl, IF RChance(r, 901, 1, 4) THEN 6 ELSE 4, TRUE)
                       IN Script1(op, a, r)
    [] cc.k = "prog" -> ProgScript(cc.i)
    [] cc.k = "ctor" -> CtorScript(cc.v, cc.s)
    [] cc.k = "eye" -> <<LeafVia(<<cc.n, cc.n>>, FALSE, "Eye", <<0, 1>>), LeafVia(<<cc.n, cc.n>>, TRUE, "Eye", <<0, 1>>)>>
=============================================================================
