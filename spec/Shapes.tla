------------------------------- MODULE Shapes ------------------------------
(* Shapes, multi-indices and the argument preconditions of the tensor API.     *)
(* A shape is a sequence of positive integers; <<>> is the scalar shape.       *)
(* Multi-indices are 0-based sequences, linear positions are 0-based and       *)
(* row-major.                                                                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
NEl(s) == Prod(s)
Rank(s) == Len(s)

Strides(s) == LET n == Len(s) IN
              TLCEval([j \in 1..n |-> FoldLeft(LAMBDA a, b : a * b, 1, SubSeq(s, j + 1, n))])
Unlin(l, s) == LET st == Strides(s) IN [j \in 1..Len(s) |-> (l \div st[j]) % s[j]]
Lin(idx, s) == LET st == Strides(s) IN
               FoldLeft(LAMBDA a, j : a + idx[j] * st[j], 0, [j \in 1..Len(s) |-> j])

DropAt(s, d) == SubSeq(s, 1, d - 1) \o SubSeq(s, d + 1, Len(s))       \* d is 1-based
InsAt(s, d, v) == SubSeq(s, 1, d - 1) \o <<v>> \o SubSeq(s, d, Len(s))

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* right-aligned (NumPy) broadcasting of two shapes *)
Pad(s, n) == [j \in 1..n |-> IF j <= n - Len(s) THEN 1 ELSE s[j - (n - Len(s))]]
BroadcastCompatible(s, t) ==
  LET n == Max2(Len(s), Len(t))  ps == Pad(s, n)  pt == Pad(t, n) IN
  \A j \in 1..n : ps[j] = pt[j] \/ ps[j] = 1 \/ pt[j] = 1
BroadcastShape(s, t) ==
  LET n == Max2(Len(s), Len(t))  ps == Pad(s, n)  pt == Pad(t, n) IN
  [j \in 1..n |-> Max2(ps[j], pt[j])]
BroadcastsTo(s, t) ==
  /\ Len(s) <= Len(t)
  /\ \A j \in 1..Len(s) : LET k == Len(t) - Len(s) + j IN s[j] = t[k] \/ s[j] = 1

(* position in the source (shape s) that position l of the target (shape t) copies *)
BroadcastSrc(l, s, t) ==
  LET idx == Unlin(l, t)  off == Len(t) - Len(s) IN
  Lin([j \in 1..Len(s) |-> IF s[j] = 1 THEN 0 ELSE idx[off + j]], s)

ValidDims(s) == \A j \in 1..Len(s) : s[j] > 0

(* ---- ranges: <<from, to>>, <<0,0>> means the whole dimension --------------- *)
WholeRange(r) == r[1] = 0 /\ r[2] = 0
RangeOK(r, d) == WholeRange(r) \/ (0 <= r[1] /\ r[1] < r[2] /\ r[2] <= d)
SliceOK(rs, s) == Len(rs) <= Len(s) /\ \A j \in 1..Len(rs) : RangeOK(rs[j], s[j])
(* explicit ranges after filling in omitted and whole ones against shape s *)
FullRanges(rs, s) == [j \in 1..Len(s) |-> IF j > Len(rs) \/ WholeRange(rs[j]) THEN <<0, s[j]>> ELSE rs[j]]
PatchOK(rs, src, dst) ==
  /\ Len(src) = Len(dst)
  /\ \A j \in 1..Len(src) : src[j] <= dst[j]
  /\ SliceOK(rs, dst)
  /\ \A j \in 1..Len(rs) : WholeRange(rs[j]) \/ rs[j][2] - rs[j][1] = src[j]

ConcatOK(ss, d) ==      \* d is 0-based, ss a sequence of shapes
  /\ Len(ss) >= 2
  /\ \A k \in 1..Len(ss) : Len(ss[k]) >= 1 /\ Len(ss[k]) = Len(ss[1])
  /\ 0 <= d /\ d < Len(ss[1])
  /\ \A k \in 1..Len(ss) : \A j \in 1..Len(ss[1]) : j # d + 1 => ss[k][j] = ss[1][j]

DimOK(d, s) == 0 <= d /\ d < Len(s)

(* ---- preconditions and result shapes of every operation -------------------- *)
UnaryOps == {"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}
CmpOps == {"Eq", "Ne", "Gt", "Ge", "Lt", "Le"}
ArithOps == {"Add", "Sub", "Mul", "Div"}
RedOps == {"SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong"}
ElOps == {"ElMax", "ElMin"}
TensorOps == UnaryOps \cup CmpOps \cup ArithOps \cup RedOps \cup ElOps \cup
             {"Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze",
              "Flatten", "Broadcast", "Dot", "MatMul"}

BatchOf(s, k) == SubSeq(s, 1, Len(s) - k)

(* ss: shapes of the operands, par: the argument record *)
OpOK(op, ss, par) ==
  CASE op \in UnaryOps -> TRUE
    [] op \in CmpOps \cup ElOps -> ss[1] = ss[2]
    [] op \in ArithOps -> BroadcastCompatible(ss[1], ss[2])
    [] op \in RedOps -> DimOK(par.d, ss[1])
    [] op = "Slice" -> SliceOK(par.r, ss[1])
    [] op = "Patch" -> PatchOK(par.r, ss[2], ss[1])
    [] op = "Concat" -> ConcatOK(ss, par.d)
    [] op = "Transpose" -> Len(ss[1]) >= 2
    [] op = "Reshape" -> ValidDims(par.s) /\ NEl(par.s) = NEl(ss[1])
    [] op = "UnSqueeze" -> 0 <= par.d /\ par.d <= Len(ss[1])
    [] op = "Squeeze" -> DimOK(par.d, ss[1]) /\ ss[1][par.d + 1] = 1
    [] op = "Flatten" -> DimOK(par.d, ss[1])
    [] op = "Broadcast" -> ValidDims(par.s) /\ BroadcastsTo(ss[1], par.s)
    [] op = "Dot" -> /\ Len(ss[1]) >= 1 /\ Len(ss[2]) >= 1
                     /\ ss[1][Len(ss[1])] = ss[2][Len(ss[2])]
                     /\ BroadcastCompatible(ss[1], ss[2])
    [] op = "MatMul" -> /\ Len(ss[1]) >= 2 /\ Len(ss[2]) >= 2
                        /\ ss[1][Len(ss[1])] = ss[2][Len(ss[2]) - 1]
                        /\ BroadcastCompatible(BatchOf(ss[1], 2), BatchOf(ss[2], 2))

OutShape(op, ss, par) ==
  CASE op \in UnaryOps \cup CmpOps \cup ElOps -> ss[1]
    [] op \in ArithOps -> BroadcastShape(ss[1], ss[2])
    [] op \in RedOps -> DropAt(ss[1], par.d + 1)
    [] op = "Slice" -> LET f == FullRanges(par.r, ss[1]) IN [j \in 1..Len(f) |-> f[j][2] - f[j][1]]
    [] op = "Patch" -> ss[1]
    [] op = "Concat" -> [j \in 1..Len(ss[1]) |->
                           IF j = par.d + 1
                           THEN FoldLeft(LAMBDA a, s : a + s[j], 0, ss)
                           ELSE ss[1][j]]
    [] op = "Transpose" -> LET n == Len(ss[1]) IN
                           [j \in 1..n |-> IF j = n THEN ss[1][n-1] ELSE IF j = n-1 THEN ss[1][n] ELSE ss[1][j]]
    [] op \in {"Reshape", "Broadcast"} -> par.s
    [] op = "UnSqueeze" -> InsAt(ss[1], par.d + 1, 1)
    [] op = "Squeeze" -> DropAt(ss[1], par.d + 1)
    [] op = "Flatten" -> SubSeq(ss[1], 1, par.d) \o <<Prod(SubSeq(ss[1], par.d + 1, Len(ss[1])))>>
    [] op = "Dot" -> BatchOf(BroadcastShape(ss[1], ss[2]), 1)
    [] op = "MatMul" -> BroadcastShape(BatchOf(ss[1], 2), BatchOf(ss[2], 2))
                          \o <<ss[1][Len(ss[1]) - 1], ss[2][Len(ss[2])]>>
=============================================================================
