-------------------------------- MODULE Args -------------------------------
(* Sampling of valid operand shapes and arguments for every operation, as a    *)
(* function of a random stream.  Used by the scenario generators; the machine   *)
(* itself re-checks every precondition, so a mistake here cannot make an         *)
(* expectation wrong.                                                           *)
EXTENDS Ops, Rng

Par1 == [d |-> 0, s |-> <<>>, r |-> <<>>, q |-> <<1, 1>>, nilc |-> FALSE]

(* a shape of the given rank with at most maxel elements *)
RECURSIVE RDims(_, _, _, _, _)
RDims(r, k, rank, dims, room) ==
  IF rank = 0 THEN <<>>
  ELSE LET d0 == RPick(r, k, dims)
           d == IF d0 > room THEN 1 ELSE d0
       IN <<d>> \o RDims(r, k + 1, rank - 1, dims, room \div d)
RShuffle(r, k, s) ==       \* rotate and maybe reverse: cheap permutation
  IF Len(s) < 2 THEN s ELSE
  LET m == RInt(r, k, Len(s))
      t == SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)
  IN IF RBool(r, k + 1) THEN Reverse(t) ELSE t

SmallDims == <<1, 2, 3, 2, 1, 4, 3, 5>>
LargeDims == <<1, 7, 2, 9, 17, 3, 11, 6, 8, 1, 2, 4>>
RShape(r, k, lo, hi, maxel) ==
  RShuffle(r, k + 20, RDims(r, k + 1, RRange(r, k, lo, hi), IF maxel >= 100 THEN LargeDims ELSE SmallDims, maxel))

(* a shape that broadcasts to t: drop leading dimensions, set some to 1; keep of 4 *)
RShrunk(r, k, t, p) ==
  LET drop == IF RChance(r, k, p, 4) THEN RInt(r, k + 1, Len(t) + 1) ELSE 0
      u == SubSeq(t, drop + 1, Len(t))
  IN [j \in 1..Len(u) |-> IF RChance(r, k + 2 + j, p, 4) THEN 1 ELSE u[j]]

RRangeOf(r, k, d) ==      \* a range valid for dimension size d
  IF RChance(r, k, 1, 3) THEN <<0, 0>>
  ELSE LET f == RInt(r, k + 1, d)  t == RRange(r, k + 2, f + 1, d) IN <<f, t>>

(* regroup the dimensions of s into another shape with as many elements *)
RRegroup(r, k, s) ==
  LET p == RShuffle(r, k, s)
      merged == FoldLeft(LAMBDA acc, j :
                   IF acc # <<>> /\ RChance(r, k + 3 + j, 1, 3)
                   THEN [acc EXCEPT ![Len(acc)] = @ * p[j]] ELSE Append(acc, p[j]),
                   <<>>, [j \in 1..Len(p) |-> j])
      ones == FoldLeft(LAMBDA acc, j :
                   (IF Len(acc) < 5 /\ RChance(r, k + 13 + j, 1, 4) THEN Append(acc, 1) ELSE acc) \o <<merged[j]>>,
                   <<>>, [j \in 1..Len(merged) |-> j])
      split == FoldLeft(LAMBDA acc, j :
                   IF ones[j] = 4 /\ RBool(r, k + 23 + j) THEN acc \o <<2, 2>>
                   ELSE IF ones[j] = 6 /\ RBool(r, k + 23 + j) THEN acc \o <<3, 2>>
                   ELSE Append(acc, ones[j]),
                   <<>>, [j \in 1..Len(ones) |-> j])
  IN IF NEl(s) = 1 /\ RChance(r, k + 30, 1, 3) THEN <<>> ELSE IF Len(split) > 6 THEN s ELSE split

PowExps == << <<0,1>>, <<1,1>>, <<2,1>>, <<3,1>>, <<-1,1>>, <<-2,1>>, <<1,2>>, <<-1,2>>, <<5,2>>, <<3,4>>, <<7,1>>, <<10,1>>, <<33,1>>, <<-5,1>>, <<1,3>>, <<3,2>>, <<-4,3>>, <<2000001,1000000>>, <<999999,1000000>>, <<1,1000000>>, <<64,1>>, <<4,1>>, <<-3,1>>,
              <<2147483647,1073741823>>, <<2147483646,2147483645>>, <<-1073741823,1073741822>> >>
ScaleBys == << <<2,1>>, <<-3,1>>, <<0,1>>, <<1,7>>, <<-1,1>>, <<1,1>>, <<"1e-30">>, <<"-2.5e20">>, <<"0.1">>, <<5,4>> >>
Slopes == << <<1,100>>, <<0,1>>, <<-1,2>>, <<3,1>>, <<"0.2">>, <<1,1>>, <<"1e-9">> >>

(* [ss |-> operand shapes, par |-> argument record]; bc: implicit expansion wanted *)
RArgs(op, r, maxel, maxrank, bc) ==
  LET sh(lo) == RShape(r, 100, lo, maxrank, maxel)
      top == IF maxel >= 100 THEN 12 ELSE 4 IN
  CASE op = "Scale" -> [ss |-> <<sh(0)>>, par |-> [Par1 EXCEPT !.q = RPick(r, 1, ScaleBys)]]
    [] op = "Pow" -> [ss |-> <<sh(0)>>, par |-> [Par1 EXCEPT !.q = RPick(r, 1, PowExps)]]
    [] op \in (UnaryOps \ {"Scale", "Pow"}) -> [ss |-> <<sh(0)>>, par |-> Par1]
    [] op \in CmpOps \cup ElOps -> LET s == sh(0) IN [ss |-> <<s, s>>, par |-> Par1]
    [] op \in ArithOps -> LET s == sh(0) IN
                          [ss |-> IF bc THEN (LET w == RInt(r, 2, 3) IN
                                      << IF w # 1 THEN RShrunk(r, 200, s, 2) ELSE s,
                                         IF w # 0 THEN RShrunk(r, 300, s, 2) ELSE s >>)
                                  ELSE <<s, s>>, par |-> Par1]
    [] op \in RedOps -> LET s == sh(1) IN [ss |-> <<s>>, par |-> [Par1 EXCEPT !.d = RInt(r, 1, Len(s))]]
    [] op = "Slice" -> LET s == sh(0)  n == IF RBool(r, 4) THEN Len(s) ELSE RInt(r, 1, Len(s) + 1) IN
                       [ss |-> <<s>>, par |-> [Par1 EXCEPT !.r = [j \in 1..n |-> RRangeOf(r, 10 + 5 * j, s[j])]]]
    [] op = "Patch" ->
         LET s == sh(0)
             n == IF RBool(r, 4) THEN Len(s) ELSE RInt(r, 1, Len(s) + 1)
             src == [j \in 1..Len(s) |-> RRange(r, 40 + j, 1, s[j])]
             rs == [j \in 1..n |-> IF RChance(r, 50 + j, 1, 3) THEN <<0, 0>>
                                   ELSE LET f == RRange(r, 60 + j, 0, s[j] - src[j]) IN <<f, f + src[j]>>]
         IN [ss |-> <<s, src>>, par |-> [Par1 EXCEPT !.r = rs]]
    [] op = "Concat" ->
         LET s == RShape(r, 100, 1, maxrank, IF maxel > 12 THEN maxel \div 2 ELSE maxel)
             d == RInt(r, 1, Len(s))
             n == IF RChance(r, 3, 1, 8) THEN RRange(r, 2, 5, 9) ELSE RRange(r, 2, 2, 4)
         IN [ss |-> [k \in 1..n |-> [s EXCEPT ![d + 1] = RRange(r, 30 + k, 1, 3)]],
             par |-> [Par1 EXCEPT !.d = d]]
    [] op = "Transpose" -> [ss |-> <<sh(2)>>, par |-> Par1]
    [] op = "Reshape" -> LET s == sh(0) IN [ss |-> <<s>>, par |-> [Par1 EXCEPT !.s = RRegroup(r, 400, s)]]
    [] op = "UnSqueeze" -> LET s == RShape(r, 100, 0, maxrank - 1, maxel) IN
                           [ss |-> <<s>>, par |-> [Par1 EXCEPT !.d = RInt(r, 1, Len(s) + 1)]]
    [] op = "Squeeze" -> LET s == RShape(r, 100, 0, maxrank - 1, maxel)  d == RInt(r, 1, Len(s) + 1) IN
                         [ss |-> <<InsAt(s, d + 1, 1)>>, par |-> [Par1 EXCEPT !.d = d]]
    [] op = "Flatten" -> LET s == sh(1) IN [ss |-> <<s>>, par |-> [Par1 EXCEPT !.d = RInt(r, 1, Len(s))]]
    [] op = "Broadcast" -> LET s == sh(0)  src == IF bc THEN RShrunk(r, 200, s, 2) ELSE s IN
                           [ss |-> <<src>>, par |-> [Par1 EXCEPT !.s = s]]
    [] op = "Dot" -> LET s == RShape(r, 100, 0, maxrank - 1, IF maxel >= 100 THEN 24 ELSE maxel)  n == RRange(r, 1, 1, top)  w == RInt(r, 2, 3) IN
                     [ss |-> << (IF bc /\ w # 1 THEN RShrunk(r, 200, s, 2) ELSE s) \o <<n>>,
                                (IF bc /\ w # 0 THEN RShrunk(r, 300, s, 2) ELSE s) \o <<n>> >>, par |-> Par1]
    [] op = "MatMul" -> LET s == RShape(r, 100, 0, maxrank - 2, IF maxel > 24 THEN 8 ELSE 4)
                            m == RRange(r, 1, 1, top)  n == RRange(r, 3, 1, top)  p == RRange(r, 4, 1, top)  w == RInt(r, 2, 3) IN
                        [ss |-> << (IF bc /\ w # 1 THEN RShrunk(r, 200, s, 2) ELSE s) \o <<m, n>>,
                                   (IF bc /\ w # 0 THEN RShrunk(r, 300, s, 2) ELSE s) \o <<n, p>> >>, par |-> Par1]
    [] op \in {"Relu", "Sigmoid", "TanhAct"} -> [ss |-> <<sh(0)>>, par |-> Par1]
    [] op = "LeakyRelu" -> LET nl == RChance(r, 1, 1, 4) IN
                           [ss |-> <<sh(0)>>, par |-> [Par1 EXCEPT !.q = IF nl THEN <<"0.01">> ELSE RPick(r, 2, Slopes), !.nilc = nl]]
    [] op = "Softmax" -> LET s == sh(1)  nl == RChance(r, 1, 1, 6) IN
                         [ss |-> <<s>>, par |-> [Par1 EXCEPT !.d = IF nl THEN 0 ELSE RInt(r, 2, Len(s)), !.nilc = nl]]
    [] op \in {"MSE", "BCE"} -> LET n == RRange(r, 1, 1, 7) IN [ss |-> <<<<n>>, <<n>>>>, par |-> Par1]
    [] op = "CE" -> LET s == <<RRange(r, 1, 1, 5), RRange(r, 2, 1, 5)>> IN [ss |-> <<s, s>>, par |-> Par1]
    [] op = "FC" -> LET b == RRange(r, 1, 1, 5)  f == RRange(r, 2, 1, 5)  o == RRange(r, 3, 1, 5) IN
                    [ss |-> <<<<b, f>>, <<o>>, <<o>>>>, par |-> Par1]

(* hand-picked large or high-rank arguments *)
BigShapes == << <<130>>, <<65, 3>>, <<2, 3, 1, 4, 2, 3>>, <<33, 17>>, <<1, 1, 1, 1, 1, 1, 2>>, <<600>>, <<8, 8, 8>>, <<1, 300>>, <<257, 1>>,
                <<40, 40>>, <<3, 1100>>, <<4, 16, 5, 16>> >>
BP_(ss, par) == [ss |-> ss, par |-> par]
BigPairs == << << <<65, 1>>, <<1, 33>> >>, << <<3, 1, 5, 1, 2>>, <<4, 1, 3, 1>> >>, << <<513>>, <<1>> >>, << <<>>, <<17, 9>> >>,
               << <<2, 1, 3, 1, 2, 1>>, <<1, 4, 1, 2, 1, 3>> >>, << <<100>>, <<7, 100>> >>, << <<9, 1, 9>>, <<9, 9, 1>> >>,
               << <<64, 2>>, <<2>> >>, << <<12, 1>>, <<5, 1, 12>> >>, << <<20, 20>>, <<20, 20>> >>, << <<33, 1, 40>>, <<1, 40>> >>, << <<1025>>, <<1025>> >> >>
BigReds == << <<70, 3>>, <<3, 70>>, <<2, 65, 3>>, <<4, 3, 2, 5, 2>>, <<300>>, <<2, 2, 2, 2, 2, 2, 2>>, <<1, 129>>, <<17, 1, 17>>, <<1100, 2>>, <<2, 1030>> >>
BigArgs(op) ==
  LET R(d) == [Par1 EXCEPT !.d = d]  S_(s) == [Par1 EXCEPT !.s = s]  X_(r) == [Par1 EXCEPT !.r = r] IN
  CASE op = "Scale" -> [j \in 1..Len(BigShapes) |-> BP_(<<BigShapes[j]>>, [Par1 EXCEPT !.q = <<-7, 3>>])]
    [] op = "Pow" -> [j \in 1..Len(BigShapes) |-> BP_(<<BigShapes[j]>>, [Par1 EXCEPT !.q = <<3, 1>>])]
    [] op \in (UnaryOps \ {"Scale", "Pow"}) \cup {"Relu", "Sigmoid", "TanhAct"} -> [j \in 1..Len(BigShapes) |-> BP_(<<BigShapes[j]>>, Par1)]
    [] op = "LeakyRelu" -> [j \in 1..Len(BigShapes) |-> BP_(<<BigShapes[j]>>, [Par1 EXCEPT !.q = <<1, 5>>])]
    [] op \in CmpOps \cup ElOps -> [j \in 1..Len(BigShapes) |-> BP_(<<BigShapes[j], BigShapes[j]>>, Par1)]
    [] op \in ArithOps -> [j \in 1..Len(BigPairs) |-> BP_(BigPairs[j], Par1)] \o [j \in 1..Len(BigPairs) |-> BP_(Reverse(BigPairs[j]), Par1)]
    [] op \in RedOps \cup {"Flatten", "Softmax"} -> Flat([j \in 1..Len(BigReds) |-> [d \in 1..Len(BigReds[j]) |-> BP_(<<BigReds[j]>>, R(d - 1))]])
    [] op = "UnSqueeze" -> Flat([j \in 1..Len(BigReds) |-> [d \in 1..(Len(BigReds[j]) + 1) |-> BP_(<<BigReds[j]>>, R(d - 1))]])
    [] op = "Squeeze" -> << BP_(<<<<70, 1, 3>>>>, R(1)), BP_(<<<<2, 2, 1, 2, 1, 2>>>>, R(4)), BP_(<<<<1, 130>>>>, R(0)), BP_(<<<<1, 1, 1, 1, 1, 1>>>>, R(5)) >>
    [] op = "Slice" -> << BP_(<<<<70, 9>>>>, X_(<< <<17, 65>>, <<0, 0>> >>)), BP_(<<<<9, 70>>>>, X_(<< <<0, 0>>, <<33, 70>> >>)),
                          BP_(<<<<3, 2, 3, 2, 3, 2>>>>, X_(<< <<1, 3>>, <<0, 0>>, <<2, 3>>, <<1, 2>>, <<0, 2>> >>)),
                          BP_(<<<<130>>>>, X_(<< <<64, 129>> >>)), BP_(<<<<5, 4, 3, 2>>>>, X_(<< <<4, 5>>, <<3, 4>>, <<2, 3>>, <<1, 2>> >>)),
                          BP_(<<<<2, 2, 2, 2, 2, 2, 2>>>>, X_(<< <<0, 1>>, <<1, 2>>, <<0, 0>>, <<1, 2>>, <<0, 1>>, <<0, 2>>, <<1, 2>> >>)) >>
    [] op = "Patch" -> << BP_(<<<<70, 9>>, <<40, 2>>>>, X_(<< <<17, 57>>, <<7, 9>> >>)), BP_(<<<<9, 70>>, <<9, 33>>>>, X_(<< <<0, 0>>, <<37, 70>> >>)),
                          BP_(<<<<3, 2, 3, 2, 3, 2>>, <<2, 2, 1, 1, 2, 1>>>>, X_(<< <<1, 3>>, <<0, 0>>, <<2, 3>>, <<1, 2>> >>)),
                          BP_(<<<<130>>, <<65>>>>, X_(<< <<65, 130>> >>)), BP_(<<<<5, 4, 3, 2>>, <<1, 1, 1, 1>>>>, X_(<< <<4, 5>>, <<3, 4>>, <<2, 3>>, <<1, 2>> >>)),
                          BP_(<<<<33, 5>>, <<10, 3>>>>, X_(<<>>)) >>
    [] op = "Concat" -> << BP_([j \in 1..10 |-> <<2, j, 3>>], R(1)), BP_(<< <<40, 3>>, <<30, 3>> >>, R(0)), BP_(<< <<3, 40>>, <<3, 30>>, <<3, 1>> >>, R(1)),
                           BP_([j \in 1..17 |-> <<1>>], R(0)), BP_(<< <<2, 1, 2, 3, 2>>, <<2, 1, 2, 2, 2>> >>, R(3)), BP_(<< <<2, 2, 2, 1, 1, 2>>, <<2, 2, 2, 1, 1, 3>> >>, R(5)) >>
    [] op = "Transpose" -> << BP_(<<<<70, 33>>>>, Par1), BP_(<<<<2, 3, 2, 5, 4>>>>, Par1), BP_(<<<<33, 1>>>>, Par1), BP_(<<<<1, 65>>>>, Par1), BP_(<<<<2, 1, 2, 3, 2, 3>>>>, Par1), BP_(<<<<20, 20>>>>, Par1) >>
    [] op = "Reshape" -> << BP_(<<<<6, 70>>>>, S_(<<420>>)), BP_(<<<<420>>>>, S_(<<2, 3, 70>>)), BP_(<<<<8, 8, 8>>>>, S_(<<2, 2, 2, 2, 2, 2, 2, 2, 2>>)),
                            BP_(<<<<1>>>>, S_(<<1, 1, 1, 1, 1, 1, 1>>)), BP_(<<<<1, 1, 1>>>>, S_(<<>>)), BP_(<<<<35, 12>>>>, S_(<<12, 35>>)) >>
    [] op = "Broadcast" -> << BP_(<<<<33>>>>, S_(<<5, 33>>)), BP_(<<<<1, 1>>>>, S_(<<40, 20>>)), BP_(<<<<>>>>, S_(<<2, 3, 2, 3, 2, 3>>)),
                              BP_(<<<<3, 1, 2, 1>>>>, S_(<<2, 2, 3, 2, 2, 3>>)), BP_(<<<<65, 1>>>>, S_(<<2, 65, 3>>)), BP_(<<<<130>>>>, S_(<<130>>)), BP_(<<<<1, 4>>>>, S_(<<70, 4>>)) >>
    [] op = "Dot" -> << BP_(<< <<130>>, <<130>> >>, Par1), BP_(<< <<3, 1, 70>>, <<2, 70>> >>, Par1), BP_(<< <<2, 3, 2, 2, 5>>, <<5>> >>, Par1),
                        BP_(<< <<33, 4>>, <<33, 4>> >>, Par1), BP_(<< <<2, 1, 2, 1, 2, 3>>, <<1, 2, 1, 2, 1, 3>> >>, Par1), BP_(<< <<257>>, <<2, 257>> >>, Par1), BP_(<< <<1030>>, <<1030>> >>, Par1), BP_(<< <<530, 2>>, <<530, 2>> >>, Par1), BP_(<< <<70, 1>>, <<70, 1>> >>, Par1) >>
    [] op = "MatMul" -> << BP_(<< <<33, 17>>, <<17, 9>> >>, Par1), BP_(<< <<9, 65>>, <<65, 4>> >>, Par1), BP_(<< <<2, 1, 3, 4>>, <<5, 4, 2>> >>, Par1),
                           BP_(<< <<3, 2, 2, 2, 3>>, <<1, 2, 3, 2>> >>, Par1), BP_(<< <<40, 2>>, <<2, 40>> >>, Par1), BP_(<< <<1, 130>>, <<130, 1>> >>, Par1),
                           BP_(<< <<5, 1, 1, 1, 2, 3>>, <<4, 1, 3, 2>> >>, Par1), BP_(<< <<130, 1>>, <<1, 2>> >>, Par1), BP_(<< <<16, 16>>, <<16, 16>> >>, Par1),
                           BP_(<< <<1, 2, 3>>, <<6, 1, 3, 2>> >>, Par1), BP_(<< <<64, 3>>, <<3, 1>> >>, Par1), BP_(<< <<2, 300>>, <<300, 3>> >>, Par1), BP_(<< <<40, 40>>, <<40, 3>> >>, Par1), BP_(<< <<1, 1030>>, <<1030, 1>> >>, Par1) >>
    [] OTHER -> <<>>

(* the values an operand may take for op to be defined and differentiable there: *)
(* the driver's valuation domains (see harness/values.go)                         *)
DomOf(op, par, k) ==
  CASE op = "Log" -> "pos"
    [] op = "Pow" -> IF par.q[2] # 1 THEN "pos" ELSE IF par.q[1] < 0 THEN "nz" ELSE "mid"
    [] op = "Div" -> IF k = 2 THEN "nz" ELSE "any"
    [] op = "Tan" -> "tan"
    [] op \in {"Exp", "Sinh", "Cosh", "Softmax"} -> "e700"
    [] op \in {"Sin", "Cos"} -> "trig"
    [] op \in {"MSE", "BCE", "CE"} -> "any"
    [] OTHER -> "any"
=============================================================================
