-------------------------------- MODULE Ops --------------------------------
(* What every operation computes: the terms of the result's elements over the  *)
(* elements of its operands.  An operand is [id |-> node, sh |-> shape].       *)
(* Besides the tensor operations this covers the forward function of every     *)
(* activation, loss and the FC layer (operands: input, weight, bias).          *)
EXTENDS Shapes, Terms

Activations == {"Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax"}
Losses == {"MSE", "BCE", "CE"}
AllOps == TensorOps \cup Activations \cup Losses \cup {"FC"}

Precond(op, ss, par) ==
  CASE op \in TensorOps -> OpOK(op, ss, par)
    [] op \in {"Relu", "LeakyRelu", "Sigmoid", "TanhAct"} -> TRUE
    [] op = "Softmax" -> par.d >= 0 /\ par.d < Len(ss[1])
    [] op \in {"MSE", "BCE"} -> Len(ss[1]) = 1 /\ ss[2] = ss[1]
    [] op = "CE" -> Len(ss[1]) = 2 /\ ss[2] = ss[1]
    [] op = "FC" -> Len(ss[1]) = 2

ResultShape(op, ss, par) ==
  CASE op \in TensorOps -> OutShape(op, ss, par)
    [] op \in Activations -> ss[1]
    [] op \in Losses -> <<>>
    [] op = "FC" -> <<ss[1][1], ss[2][1]>>

(* a constant argument is a rational <<n, d>> or a decimal string in <<s>> *)
ConstT(q) == IF Len(q) = 1 THEN C(q[1]) ELSE Q(q[1], q[2])

FnOf(op) == CASE op = "Exp" -> "exp" [] op = "Log" -> "log" [] op = "Sin" -> "sin"
              [] op = "Cos" -> "cos" [] op = "Tan" -> "tan" [] op = "Sinh" -> "sinh"
              [] op = "Cosh" -> "cosh" [] op = "Tanh" -> "tanh"
CmpOf(op) == CASE op = "Eq" -> "eq" [] op = "Ne" -> "ne" [] op = "Gt" -> "gt"
               [] op = "Ge" -> "ge" [] op = "Lt" -> "lt" [] op = "Le" -> "le"

Stat(op, ts) ==
  CASE op \in {"Sum", "SumAlong"} -> SumT(ts)
    [] op \in {"Max", "MaxAlong"} -> <<"maxn", ts>>
    [] op \in {"Min", "MinAlong"} -> <<"minn", ts>>
    [] op \in {"Avg", "Mean", "AvgAlong", "MeanAlong"} -> <<"mean", ts>>
    [] op \in {"Var", "VarAlong"} -> <<"var", ts>>
    [] op \in {"Std", "StdAlong"} -> <<"std", ts>>

(* positions (0-based, row-major) of the fibre of shape s along dimension d     *)
(* (0-based) that lies over position l of the reduced shape                     *)
Fibre(l, s, d) ==
  LET idx == Unlin(l, DropAt(s, d + 1)) IN
  [m \in 1..s[d + 1] |-> Lin(InsAt(idx, d + 1, m - 1), s)]

Seq0(n, F(_)) == [j \in 1..n |-> F(j - 1)]      \* F applied to 0-based positions

Clip01(t) == <<"clip", t, C("0"), C("1")>>
ClipP(t) == <<"clip", t, C("1e-12"), C("0.999999999999")>>

(* element l of the result *)
ElemT(op, xs, par, os, l) ==
  LET a == xs[1]
      b == xs[2]
      x(i) == X(a.id, i)
      y(i) == X(b.id, i)
  IN
  CASE op = "Scale" -> ProdT(<<ConstT(par.q), x(l)>>)
    [] op = "Pow" -> <<"^", x(l), par.q[1], par.q[2]>>
    [] op \in UnaryOps \ {"Scale", "Pow"} -> U(FnOf(op), x(l))
    [] op \in CmpOps -> <<"cmp", CmpOf(op), x(l), y(l)>>
    [] op = "ElMax" -> <<"max2", x(l), y(l)>>
    [] op = "ElMin" -> <<"min2", x(l), y(l)>>
    [] op \in ArithOps ->
         LET u == x(BroadcastSrc(l, a.sh, os))  v == y(BroadcastSrc(l, b.sh, os)) IN
         (CASE op = "Add" -> SumT(<<u, v>>)
           [] op = "Sub" -> SubT(u, v)
           [] op = "Mul" -> ProdT(<<u, v>>)
           [] op = "Div" -> <<"/", u, v>>)
    [] op \in RedOps -> LET f == Fibre(l, a.sh, par.d) IN
                        Stat(op, [m \in 1..Len(f) |-> x(f[m])])
    [] op = "Slice" -> LET idx == Unlin(l, os)  f == FullRanges(par.r, a.sh) IN
                       x(Lin([j \in 1..Len(os) |-> f[j][1] + idx[j]], a.sh))
    [] op = "Patch" -> LET idx == Unlin(l, a.sh)  f == FullRanges(par.r, b.sh) IN
                       IF \A j \in 1..Len(idx) : f[j][1] <= idx[j] /\ idx[j] < f[j][2]
                       THEN y(Lin([j \in 1..Len(idx) |-> idx[j] - f[j][1]], b.sh))
                       ELSE x(l)
    [] op = "Concat" ->
         LET idx == Unlin(l, os)
             d == par.d + 1
             start(k) == FoldLeft(LAMBDA s, m : s + xs[m].sh[d], 0, [m \in 1..(k - 1) |-> m])
             k == CHOOSE k \in 1..Len(xs) : start(k) <= idx[d] /\ idx[d] < start(k) + xs[k].sh[d]
         IN X(xs[k].id, Lin([idx EXCEPT ![d] = idx[d] - start(k)], xs[k].sh))
    [] op = "Transpose" -> LET n == Len(os)  idx == Unlin(l, os) IN
                           x(Lin([idx EXCEPT ![n] = idx[n-1], ![n-1] = idx[n]], a.sh))
    [] op \in {"Reshape", "UnSqueeze", "Squeeze", "Flatten"} -> x(l)
    [] op = "Broadcast" -> x(BroadcastSrc(l, a.sh, os))
    [] op = "Dot" ->
         LET ext == BroadcastShape(a.sh, b.sh)  n == ext[Len(ext)] IN
         SumT([m \in 1..n |-> ProdT(<< x(BroadcastSrc(l * n + m - 1, a.sh, ext)),
                                       y(BroadcastSrc(l * n + m - 1, b.sh, ext)) >>)])
    [] op = "MatMul" ->
         LET n == Len(os)
             idx == Unlin(l, os)
             bs == SubSeq(os, 1, n - 2)
             bl == Lin(SubSeq(idx, 1, n - 2), bs)
             ab == BatchOf(a.sh, 2)  bb == BatchOf(b.sh, 2)
             ka == Len(a.sh)  kb == Len(b.sh)
             offa == BroadcastSrc(bl, ab, bs) * a.sh[ka-1] * a.sh[ka]
             offb == BroadcastSrc(bl, bb, bs) * b.sh[kb-1] * b.sh[kb]
         IN SumT([m \in 1..a.sh[ka] |->
                    ProdT(<< x(offa + idx[n-1] * a.sh[ka] + m - 1),
                             y(offb + (m - 1) * b.sh[kb] + idx[n]) >>)])
    [] op = "Relu" -> <<"max2", ZeroT, x(l)>>
    [] op = "LeakyRelu" -> <<"leak", x(l), ConstT(par.q)>>
    [] op = "Sigmoid" -> U("sigm", x(l))
    [] op = "TanhAct" -> U("tanh", x(l))
    [] op = "Softmax" -> LET idx == Unlin(l, a.sh)
                             f == Fibre(Lin(DropAt(idx, par.d + 1), DropAt(a.sh, par.d + 1)), a.sh, par.d)
                         IN <<"smax", idx[par.d + 1] + 1, [m \in 1..Len(f) |-> x(f[m])]>>
    [] op = "MSE" -> <<"mean", Seq0(a.sh[1], LAMBDA i : PowT(SubT(y(i), x(i)), 2, 1))>>
    [] op = "BCE" -> NegT(<<"mean", Seq0(a.sh[1], LAMBDA i :
                        SumT(<< ProdT(<<Clip01(y(i)), U("log", ClipP(x(i)))>>),
                                ProdT(<<SubT(OneT, Clip01(y(i))), U("log", SubT(OneT, ClipP(x(i))))>>) >>))>>)
    [] op = "CE" -> NegT(<<"mean", Seq0(a.sh[1], LAMBDA r :
                        SumT(Seq0(a.sh[2], LAMBDA c :
                          LET i == r * a.sh[2] + c IN
                          ProdT(<<Clip01(y(i)), U("log", ClipP(x(i)))>>))))>>)
    [] op = "FC" -> LET f == a.sh[2]
                        o == l % xs[2].sh[1]
                        r == l \div xs[2].sh[1]
                    IN SumT(<< ProdT(<< X(xs[2].id, o), SumT(Seq0(f, LAMBDA d : x(r * f + d))) >>),
                               X(xs[3].id, o) >>)

Elements(op, xs, par) ==
  LET os == ResultShape(op, [k \in 1..Len(xs) |-> xs[k].sh], par) IN
  TLCEval([l \in 1..NEl(os) |-> TLCEval(ElemT(op, xs, par, os, l - 1))])
=============================================================================
