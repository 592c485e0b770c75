------------------------------- MODULE Gen_C10 -----------------------------
(* Immutability and decoupling: one operation with every caller-owned slice          *)
(* overwritten around it (constant Mut), back-propagated afterwards, applied again,   *)
(* its tensors reset and used again.                                                  *)
EXTENDS Prog

CONSTANTS Seed, NRandom, ExFrom, MaxEl, NProg, NMulti

Ops_ == UnaryOps \cup ArithOps \cup RedOps \cup ElOps \cup CmpOps \cup Activations \cup Losses \cup
        {"Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Dot", "MatMul", "Broadcast", "FC"}
EnumOps == {"Slice", "Patch", "Concat", "Reshape", "Broadcast"}
OpSeq == SetToSeq(Ops_)
Vias == << "TensorOf", "TensorOf", "TensorOf", "RandU", "RandN", "Full", "Zeros", "Ones" >>
InitVias == << "InitFull", "InitUniform", "InitNormal", "InitXavierUniform", "InitHeNormal" >>

Hash(a) == (Seed + FoldLeft(LAMBDA x, s : (31 * x + 7 + FoldLeft(LAMBDA y, d : 5 * y + d, 1, s)) % 10007, 1, a.ss)
                 + FoldLeft(LAMBDA x, rg : (17 * x + 3 * rg[1] + rg[2]) % 1009, 1, a.par.r)
                 + FoldLeft(LAMBDA x, d : (13 * x + d) % 1009, 1, a.par.s) + 11 * a.par.d)

NoExp(op, a) == op = "Broadcast" => a.ss[1] = a.par.s      \* explicit expansion: C07's finding

AnyLeaf(st, r, k, s, tr, dom) ==
  IF dom \in {"any", "mid", "w"} /\ RChance(r, k, 1, 3)
  THEN IF tr /\ RBool(r, k + 1)
       THEN PNode(st, LeafVia(s, TRUE, RPick(r, k + 2, InitVias), <<3, 2>>), s)
       ELSE LET v == RPick(r, k + 3, Vias) IN
            IF Len(s) = 2 /\ s[1] = s[2] /\ RBool(r, k + 4) THEN PNode(st, LeafVia(s, tr, "Eye", <<1, 1>>), s)
            ELSE IF v = "TensorOf" THEN PLeaf(st, s, tr, dom) ELSE PNode(st, LeafVia(s, tr, v, <<3, 2>>), s)
  ELSE PLeaf(st, s, tr, dom)

OpScript(op, a, r) ==
  LET n == Len(a.ss)
      dom(j) == IF op \in Losses THEN "prob" ELSE IF DomOf(op, a.par, j) = "any" THEN "w" ELSE DomOf(op, a.par, j)
      st == FoldLeft(LAMBDA acc, j : AnyLeaf(acc, r, 50 * j, a.ss[j], RChance(r, 40 + j, 3, 4), dom(j)), PStart, [j \in 1..n |-> j])
      in == [j \in 1..n |-> j]
      y == POp(st, op, in, a.par)
      yy == PLast(y)
      os == y.sh[yy]
      g == PLeaf(y, os, FALSE, "G")
      z == POp(g, "Mul", <<yy, PLast(g)>>, Par1)
      b == PReq(z, BP(PLast(z)))
      y2 == POp(b, op, in, a.par)                              \* again, on spent operands
      rs == FoldLeft(LAMBDA acc, j : IF RChance(r, 70 + j, 2, 3) THEN PReq(acc, Reset(j, RBool(r, 80 + j))) ELSE acc, y2, in)
      y3 == POp(rs, op, in, a.par)
      b2 == PReq(y3, BP(PLast(y3)))
      tail == IF RBool(r, 6) THEN PReq(b2, Scalar(RPick(r, 7, <<"Sum", "Max", "Min", "Avg", "Mean", "Var", "Std">>), yy)) ELSE b2
  IN PReq(PReq(tail, EqualsReq(yy, PLast(b2))), SameReq(yy, PLast(b2))).rq

ProgSeq == << "Scale", "Pow", "Exp", "Sin", "Tanh", "Add", "Sub", "Mul", "Div", "ElMax", "ElMin", "SumAlong", "MaxAlong", "VarAlong",
              "Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Dot", "MatMul", "Eq", "Gt",
              "Slice", "Patch", "Concat", "Reshape", "Relu", "Softmax" >>
ProgScript(i) ==
  LET r == RSeed(Seed, 13 * i + 4)
      cf == [max |-> 12, bc |-> RBool(r, 1), dom |-> "w"]
      s0 == FoldLeft(LAMBDA acc, j : AnyLeaf(acc, r, 50 * j, RShape(r, 500 + 40 * j, 1, 3, 12), RChance(r, 40 + j, 3, 4), "w"), PStart, [j \in 1..RRange(r, 2, 1, 3) |-> j])
      s1 == PRun(s0, r, RRange(r, 3, 2, 8), ProgSeq, cf)
      s2 == PReq(s1, BP(PLast(s1)))
      s3 == PRun(s2, RMix(r, 4), RRange(r, 5, 0, 3), ProgSeq, cf)
  IN s3.rq

(* several graphs over the same leaves, all built first; then their roots back-propagated   *)
(* in some order, the gradients taken as tensors (and used) in between                        *)
MultiScript(i) ==
  LET r == RSeed(Seed, 17 * i + 9)
      cf == [max |-> 8, bc |-> RBool(r, 1), dom |-> "w"]
      nl == RRange(r, 2, 1, 2)
      s0 == FoldLeft(LAMBDA acc, j : PLeaf(acc, RShape(r, 500 + 40 * j, 0, 2, 6), TRUE, "w"), PStart, [j \in 1..nl |-> j])
      nk == RRange(r, 3, 2, 6)
      g == FoldLeft(LAMBDA acc, k :
             LET q == RMix(r, 60 + k)
                 l == RRange(q, 1, 1, nl)
                 a == IF RBool(q, 2) THEN POp(acc.st, "Scale", <<l>>, PQ(<<RRange(q, 3, 1, 5), 2>>))
                      ELSE POp(acc.st, RPick(q, 4, <<"Add", "Mul", "Sub">>), <<l, l>>, Par1)
                 b == IF RBool(q, 5) THEN PApply([a EXCEPT !.pool = <<PLast(a), l>>], RMix(q, 6), RPick(q, 7, ProgSeq), cf) ELSE a
             IN [st |-> b, roots |-> Append(acc.roots, PLast(b))],
             [st |-> s0, roots |-> <<>>], [k \in 1..nk |-> k])
      order == FoldLeft(LAMBDA acc, k : LET j == RRange(RMix(r, 90 + k), 1, 1, Len(acc.left)) IN
                          [out |-> Append(acc.out, acc.left[j]), left |-> SubSeq(acc.left, 1, j - 1) \o SubSeq(acc.left, j + 1, Len(acc.left))],
                        [out |-> <<>>, left |-> g.roots], [k \in 1..nk |-> k]).out
      bps == FoldLeft(LAMBDA acc, k :
               LET q == RMix(r, 130 + k)
                   l == RRange(q, 1, 1, nl)
                   b == PReq(acc, BP(order[k]))
                   t == IF RBool(q, 2) THEN PNode(b, TakeGrad(l), b.sh[l]) ELSE b
                   u == IF PLast(t) > PLast(b) /\ RBool(q, 3) THEN POp(t, "Add", <<PLast(t), PLast(t)>>, Par1) ELSE t
               IN IF RChance(q, 4, 1, 5) THEN PReq(u, Reset(l, RBool(q, 5))) ELSE u,
               g.st, [k \in 1..nk |-> k])
  IN bps.rq

Init == /\ Init0
        /\ \/ \E op \in EnumOps : \E a \in EnumArgs(op, FALSE) :
                 /\ NoExp(op, a)
                 /\ (ExFrom = 1 \/ Hash(a) % ExFrom = 0)
                 /\ c = [k |-> "ex", op |-> op, a |-> a]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ \E i \in 1..NProg : c = [k |-> "prog", i |-> i]
           \/ \E i \in 1..NMulti : c = [k |-> "multi", i |-> i]

GenScript(cc) ==
  IF cc.k = "prog" THEN ProgScript(cc.i)
  ELSE IF cc.k = "multi" THEN MultiScript(cc.i)
  ELSE LET r == RSeed(Seed, IF cc.k = "ex" THEN Hash(cc.a) ELSE cc.i)
           op == IF cc.k = "rnd" THEN OpSeq[1 + (cc.i % Len(OpSeq))] ELSE cc.op
           a == IF cc.k = "ex" THEN cc.a ELSE RArgs(op, r, MaxEl, 4, op # "Broadcast" /\ RBool(r, 8))
       IN OpScript(op, a, r)
=============================================================================
