------------------------------- MODULE Gen_C09 -----------------------------
(* Totality: probes every public entry point with valid and invalid arguments:     *)
(* complete enumerations over small ranks and integers, sampled beyond.             *)
EXTENDS Prog

CONSTANTS Seed, Den, NRandom, NData

(* one element of S in n *)
Sample(S, n) == IF n = 1 THEN S ELSE LET q == SetToSeq(S) IN {q[j] : j \in {j \in 1..Len(q) : (Seed * 31 + j * 7 + j \div 5) % n = 0}}

DimVals == << -2, -1, 0, 1, 2, 3, 4, 5, 6, MaxI, MinI >>
Shapes03 == Shp(0, 3, D3)
HighShapes == Shp(4, 5, {1, 2})
T(op, in, par) == <<op, in, par>>

DimOps == <<"SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong", "UnSqueeze", "Squeeze", "Flatten", "Softmax">>
PlainOps == <<"Transpose", "Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Relu", "LeakyRelu", "Sigmoid", "TanhAct",
              "Sum", "Max", "Min", "Avg", "Mean", "Var", "Std", "NElems", "Shape", "Gradient">>
PairOps == <<"Add", "Sub", "Mul", "Div", "Eq", "Ne", "Gt", "Ge", "Lt", "Le", "ElMax", "ElMin", "Dot", "MatMul", "Equals", "MSE", "BCE", "CE">>

(* ---- one tensor: dimension arguments, plain operations, wrong numbers of inputs ---- *)
OneTries(s) ==
  Flat([o \in 1..Len(DimOps) |-> [d \in 1..Len(DimVals) |-> T(DimOps[o], <<1>>, PD(DimVals[d]))]])
  \o [o \in 1..Len(PlainOps) |-> T(PlainOps[o], <<1>>, Par1)]
  \o Flat([o \in 1..5 |-> LET op == <<"Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax">>[o] IN
       << T(op, <<>>, Par1), T(op, <<0>>, Par1), T(op, <<1, 1>>, Par1), T(op, <<1, 0>>, Par1), T(op, <<0, 1>>, Par1), T(op, <<0, 0, 0>>, Par1) >>])
  \o << T("Softmax", <<1>>, [Par1 EXCEPT !.nilc = TRUE]), T("LeakyRelu", <<1>>, [Par1 EXCEPT !.nilc = TRUE]),
        T("BackPropagate", <<0>>, Par1), T("BackPropagate", <<-1>>, Par1), T("BackPropagate", <<1>>, Par1) >>
  \o [o \in 1..Len(PairOps) |-> T(PairOps[o], <<1, 0>>, Par1)]
  \o [o \in 1..15 |-> T(PairOps[o], <<1, -1>>, Par1)]
  \o Flat([o \in 1..3 |-> << T(PairOps[15 + o], <<0, 1>>, Par1), T(PairOps[15 + o], <<0, 0>>, Par1) >>])
  \o << T("Patch", <<1, 0>>, Par1), T("Patch", <<1, -1>>, Par1), T("Patch", <<1, 0>>, PR(<< <<0, 1>> >>)) >>
  \o Flat([d \in 1..Len(DimVals) |-> << T("Concat", <<1, 1>>, PD(DimVals[d])), T("Concat", <<1, 1, 1>>, PD(DimVals[d])), T("Concat", <<1>>, PD(DimVals[d])), T("Concat", <<>>, PD(DimVals[d])) >>])
  \o [n \in 1..12 |-> T("FCFwd", <<1>>, PD(IF n <= 6 THEN n ELSE 1))]

(* ---- index lists ------------------------------------------------------------------ *)
R16 == {<<f, t>> : f \in -1..4, t \in -1..4}
RX == {<<MinI, MaxI>>, <<0, MaxI>>, <<MinI, 0>>, <<MaxI, MinI>>, <<MaxI, MaxI>>, <<1, MinI>>, <<-2, 6>>, <<5, 6>>}
Lists1 == {<<a>> : a \in R16 \cup RX}
Lists2 == {<<a, b>> : a \in R16, b \in R16}
Lists2X == {<<a, b>> : a \in RX, b \in {<<0, 0>>, <<0, 1>>}} \cup {<<b, a>> : a \in RX, b \in {<<0, 0>>, <<0, 1>>}}
R8 == {<<0, 0>>, <<0, 1>>, <<0, 2>>, <<1, 2>>, <<1, 1>>, <<2, 1>>, <<-1, 1>>, <<0, 3>>, <<2, 3>>, <<1, 3>>}
Lists3 == {<<a, b, g>> : a \in R8, b \in R8, g \in R8}
Lists4 == {<<a, a, b, b>> : a \in R8, b \in R8}

IndexLists(rank) ==
  {<<>>} \cup Lists1
  \cup (IF rank >= 1 THEN Lists2X \cup Sample(Lists2, IF rank = 2 THEN Den ELSE 4 * Den) ELSE {<< <<0, 0>>, <<0, 0>> >>})
  \cup (IF rank >= 2 THEN Sample(Lists3, IF rank = 3 THEN Den ELSE 4 * Den) ELSE {})
  \cup (IF rank >= 3 THEN Sample(Lists4, Den) ELSE {})

SliceTries(s) == LET q == SetToSeq(IndexLists(Len(s))) IN [j \in 1..Len(q) |-> T("Slice", <<1>>, PR(q[j]))]

IdxVals == {-2, -1, 0, 1, 2, 3, 4}
AtTries(s) ==
  LET all == UNION {[1..n -> IdxVals] : n \in 0..Min2(3, Len(s) + 1)}
             \cup {[j \in 1..n |-> v] : n \in 1..6, v \in {0, 1, MaxI, MinI, -1}}
             \cup {[j \in 1..Len(s) |-> IF j = m THEN v ELSE 0] : m \in 1..Len(s), v \in {-1, 1, 2, 3, 4, MaxI, MinI}}
      q == SetToSeq(all)
  IN [j \in 1..Len(q) |-> T("At", <<1>>, PS(q[j]))]

(* ---- target shapes ------------------------------------------------------------------ *)
Targets ==
  UNION {[1..n -> {-2, -1, 0, 1, 2, 3, 4, 6}] : n \in 0..2} \cup [1..3 -> {-1, 0, 1, 2, 3, 4}]
ReTargets == Sample(Targets, 1) \cup Sample([1..4 -> {0, 1, 2, 3}], Den) \cup Sample([1..5 -> {-1, 1, 2, 3}], 3 * Den)
  \cup { <<HugeA, 4>>, <<4, HugeA>>, <<HugeA, 2, 2>>, <<2, HugeA, 2>>, <<MaxI, MaxI>>, <<MaxI>>, <<MinI>>, <<MinI, MinI>>, <<-1, -6>>, <<-2, -3>>, <<-1, -1>>,
         <<MinI, 2>>, <<MaxI, 2, 3>>, <<HugeA, 4, 3>>, <<6, HugeA, 4>>, <<0, MaxI>>, <<HugeA, HugeA, 4, 4>>, <<1, 1, 1, 1, 1, 1>>, <<2, 3, 1, 1, 1, 1, 1>> }
BcTargets == Sample(Targets, 1) \cup Sample([1..4 -> {0, 1, 2, 3}], Den) \cup Sample([1..5 -> {-1, 1, 2, 3}], 3 * Den)
  \cup { <<MinI>>, <<MinI, 2>>, <<-1, 2, 3>>, <<2, 0, 3>> }
ShapeTries(s) == LET q == SetToSeq(ReTargets)  b == SetToSeq(BcTargets) IN
                 [j \in 1..Len(q) |-> T("Reshape", <<1>>, PS(q[j]))] \o [j \in 1..Len(b) |-> T("Broadcast", <<1>>, PS(b[j]))]

(* ---- pairs ---------------------------------------------------------------------------- *)
PairSeq == SetToSeq(Shp(0, 2, D3) \cup Shp(3, 3, {1, 2}) \cup {<<3, 1, 2>>, <<2, 3, 3>>, <<1, 3, 2>>, <<3, 2, 3>>, <<3, 3, 1>>})
PairLeaves == [j \in 1..Len(PairSeq) |-> Leaf(PairSeq[j], j % 3 = 0, "w")]
PairTries(i) == Flat([j \in 1..Len(PairSeq) |-> [o \in 1..Len(PairOps) |-> T(PairOps[o], <<i, j>>, Par1)]])

(* every index list of length <= 1 and some longer ones for every pair of shapes *)
PatchTries(i) ==
  LET l == SetToSeq({<<>>} \cup Lists1 \cup Sample(Lists2, 24 * Den) \cup Sample(Lists3, 64 * Den)) IN
  Flat([j \in 1..Len(PairSeq) |-> [m \in 1..Len(l) |-> T("Patch", <<i, j>>, PR(l[m]))]])

(* patches that are right but for one number *)
PatchNear(i) ==
  LET s == PairSeq[i] IN
  IF Len(s) # 2 THEN <<>>
  ELSE Flat(SetToSeq({ [m \in 1..5 |->
         LET p == SetToSeq(PatchesOf(s))  r == RSeed(Seed, i * 17 + n)  e == RPick(r, 1, p)
             rs == e[2]
             src == e[1]
             k == CHOOSE k \in 1..Len(PairSeq) : PairSeq[k] = src
             tw == RInt(r, 2, Len(rs) + 1)
         IN T("Patch", <<i, k>>, PR(CASE m = 1 \/ rs = <<>> \/ tw = 0 -> rs
                                     [] m = 2 -> [rs EXCEPT ![tw] = <<@[1] + 1, @[2] + 1>>]
                                     [] m = 3 -> [rs EXCEPT ![tw] = <<@[1], @[2] + 1>>]
                                     [] m = 4 -> [rs EXCEPT ![tw] = <<@[1] - 1, @[2]>>]
                                     [] m = 5 -> [rs EXCEPT ![tw] = <<@[2], @[1]>>]))] : n \in 1..40 }))

(* high ranks and larger sizes: valid arguments and one-off neighbours *)
RndScript(i) ==
  LET r == RSeed(Seed, i)
      ops == <<"Add", "Sub", "Mul", "Div", "Eq", "ElMax", "Dot", "MatMul", "Concat", "Slice", "Patch", "Reshape", "Broadcast", "Transpose", "Squeeze", "UnSqueeze", "Flatten", "SumAlong", "MSE", "BCE", "CE", "Softmax">>
      op == ops[1 + (i % Len(ops))]
      a == RArgs(op, r, RPick(r, 1, <<12, 24, 60, 200>>), RPick(r, 2, <<3, 4, 5, 5>>), RBool(r, 3))
      n == Len(a.ss)
      (* a neighbouring shape for every operand *)
      nb(k) == LET s == a.ss[k]  m == RInt(r, 100 + k, 4) IN
               IF s = <<>> THEN <<RRange(r, 200 + k, 1, 3)>>
               ELSE LET j == RRange(r, 300 + k, 1, Len(s)) IN
                    CASE m = 0 -> [s EXCEPT ![j] = @ + 1]
                      [] m = 1 -> [s EXCEPT ![j] = Max2(1, @ - 1)]
                      [] m = 2 -> DropAt(s, j)
                      [] m = 3 -> InsAt(s, j, RRange(r, 400 + k, 1, 2))
      leaves == [k \in 1..n |-> Leaf(a.ss[k], RBool(r, 500 + k), "w")] \o [k \in 1..n |-> Leaf(nb(k), RBool(r, 600 + k), "w")]
      id == [k \in 1..n |-> k]
      p == [a.par EXCEPT !.nilc = FALSE]
      pars == << p, [p EXCEPT !.d = @ - 1], [p EXCEPT !.d = @ + 1], [p EXCEPT !.d = Len(a.ss[1])], [p EXCEPT !.d = Len(a.ss[1]) + 1], [p EXCEPT !.d = Len(a.ss[1]) - 1] >>
              \o (IF p.s # <<>> THEN << [p EXCEPT !.s = Append(@, 1)], [p EXCEPT !.s = Tail(@)], [p EXCEPT !.s[1] = @ + 1], [p EXCEPT !.s[Len(p.s)] = @ - 1], [p EXCEPT !.s = <<1>> \o @], [p EXCEPT !.s = Reverse(@)] >> ELSE <<>>)
              \o (IF p.r # <<>> THEN LET j == RRange(r, 5, 1, Len(p.r)) IN
                                     << [p EXCEPT !.r = Append(@, <<0, 0>>)], [p EXCEPT !.r = Tail(@)], [p EXCEPT !.r[j] = <<@[1] + 1, @[2] + 1>>], [p EXCEPT !.r[j] = <<@[1], @[2] + 1>>],
                                        [p EXCEPT !.r[j] = <<@[1] + 1, @[2]>>], [p EXCEPT !.r[j] = <<@[1], @[2] - 1>>], [p EXCEPT !.r[j] = <<@[1] - 1, @[2]>>], [p EXCEPT !.r[j] = <<@[2], @[1]>>],
                                        [p EXCEPT !.r = [m \in 1..(Len(a.ss[1]) + 1) |-> <<0, 0>>]], [p EXCEPT !.r = [m \in 1..Len(a.ss[1]) |-> <<0, 0>>]], [p EXCEPT !.r = Reverse(@)] >> ELSE <<>>)
      ins == IF n = 1 THEN << <<1>>, <<2>> >>
             ELSE << id, Reverse(id), [id EXCEPT ![n] = n + n], [id EXCEPT ![1] = n + 1], [k \in 1..n |-> k + n], [k \in 1..n |-> 1], [id EXCEPT ![n] = 0] >>
                  \o (IF op = "Concat" THEN << Append(id, n + 1), Append(id, 0), Append(id, -1), <<-1>> \o id, [id EXCEPT ![1] = 0], Tail(id), id \o id >> ELSE <<>>)
  IN leaves \o << Tries(Flat([x \in 1..Len(ins) |-> [y \in 1..Len(pars) |-> T(op, ins[x], pars[y])]])) >>

(* ---- Concat ------------------------------------------------------------------------------ *)
CatSeq == << <<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>> >>
CatIds == <<0, -1, 1, 2, 3, 4, 5, 6, 7>>
ConcatTries(d) ==
  << T("Concat", <<>>, PD(d)) >> \o [x \in 1..9 |-> T("Concat", <<CatIds[x]>>, PD(d))]
  \o Flat([x \in 1..9 |-> [y \in 1..9 |-> T("Concat", <<CatIds[x], CatIds[y]>>, PD(d))]])
  \o Flat([x \in 1..9 |-> Flat([y \in 1..9 |-> [z \in 1..9 |-> T("Concat", <<CatIds[x], CatIds[y], CatIds[z]>>, PD(d))]])])

(* ---- operands of any value, parameters of any value, operands with a past ------------------- *)
OddQ == << <<"NaN">>, <<"+Inf">>, <<"-Inf">>, <<"1e300">>, <<"-1e300">>, <<"1e18">>, <<"-1e18">>, <<"9223372036854775807">>, <<"9223372036854775808">>,
           <<"4294967296">>, <<"123456789">>, <<"-123456789">>, <<"1e-300">>, <<"5e-324">>, <<"-0">>, <<"0.5">>, <<"-2.5">>, <<"1000">>, <<"-1">>, <<"3">>, <<"0">> >>
OddTries(s, z) ==      \* on tensors z + 1 and z + 2 of shape s
  Flat([aa \in 1..2 |-> LET a == z + aa IN
     [j \in 1..(3 * Len(OddQ)) |-> T(<<"Scale", "Pow", "LeakyRelu">>[1 + (j % 3)], <<a>>, PQ(OddQ[1 + ((j \div 3) % Len(OddQ))]))]
     \o Flat([o \in 1..Len(DimOps) |-> [d \in 1..(Len(s) + 2) |-> T(DimOps[o], <<a>>, PD(d - 2))]])
     \o [o \in 1..Len(PlainOps) |-> T(PlainOps[o], <<a>>, Par1)]
     \o Flat([bb \in 1..2 |-> LET b == z + bb IN [o \in 1..Len(PairOps) |-> T(PairOps[o], <<a, b>>, Par1)] \o << T("Concat", <<a, b>>, PD(0)), T("Concat", <<a, b, a>>, PD(Len(s) - 1)) >>])
     \o << T("Slice", <<a>>, PR(<< <<0, 1>> >>)), T("Slice", <<a>>, PR(<<>>)), T("Patch", <<a, z + 3 - aa>>, PR(<<>>)), T("Reshape", <<a>>, PS(<<NEl(s)>>)), T("Broadcast", <<a>>, PS(<<2>> \o s)),
           T("At", <<a>>, PS([j \in 1..Len(s) |-> 0])), T("FCFwd", <<a>>, PD(2)), T("BackPropagate", <<a>>, Par1) >>])

(* a spent leaf, a leaf reset after a back-propagation, spent results, a gradient, results of spent and of mixed operands *)
PastScript(s) ==
  LET n == 8  all == [j \in 1..n |-> j] IN
  << Leaf(s, TRUE, "w"), Leaf(s, TRUE, "w"), Op("Add", <<1, 2>>, Par1), Op("Mul", <<3, 3>>, Par1), BP(4), TakeGrad(1), Reset(2, TRUE), Op("Sub", <<1, 2>>, Par1), Op("Gt", <<2, 5>>, Par1),
     Op("Scale", <<5>>, PQ(<<2, 1>>)),
     Tries(Flat([a \in 1..n |->
        [o \in 1..Len(PlainOps) |-> T(PlainOps[o], <<a>>, Par1)]
        \o Flat([o \in 1..Len(DimOps) |-> [d \in 1..(Len(s) + 2) |-> T(DimOps[o], <<a>>, PD(d - 2))]])
        \o Flat([b \in 1..n |-> [o \in 1..Len(PairOps) |-> T(PairOps[o], <<a, b>>, Par1)] \o << T("Concat", <<a, b>>, PD(0)), T("Patch", <<a, b>>, PR(<<>>)) >>])
        \o << T("Slice", <<a>>, PR(<<>>)), T("Reshape", <<a>>, PS(<<NEl(s)>>)), T("Reshape", <<a>>, PS(<<NEl(s), 2>>)), T("Broadcast", <<a>>, PS(<<2>> \o s)), T("Broadcast", <<a>>, PS(<<>>)),
              T("At", <<a>>, PS([j \in 1..Len(s) |-> 0])), T("At", <<a>>, PS([j \in 1..(Len(s) + 1) |-> 0])), T("Concat", <<a, 0>>, PD(0)), T("Concat", <<-1, a>>, PD(0)), T("BackPropagate", <<a>>, Par1) >>])) >>

(* ---- calls -------------------------------------------------------------------------------- *)
C0 == [f |-> "", dims |-> <<>>, nild |-> FALSE, dev |-> "nil", p |-> <<5, 8>>, a |-> <<0, 0>>, nilc |-> FALSE, k |-> <<"", "", "">>, data |-> <<>>, ne |-> FALSE]
Small == {-2, -1, 0, 1, 2, 3, 4, 5, 6}
Dims02 == UNION {[1..n -> Small] : n \in 0..2}
Dims3 == Sample([1..3 -> {-1, 0, 1, 2, 3, 6}], Den)
Dims45 == Sample([1..4 -> {-1, 0, 1, 2, 3}], 2 * Den) \cup Sample([1..5 -> {0, 1, 2}], Den) \cup {[j \in 1..5 |-> IF j = m THEN v ELSE 1] : m \in 1..5, v \in {-2, 0, 6}}
DimsX == { <<MinI>>, <<0, MaxI>>, <<MaxI, -1>>, <<2, MinI>>, <<1, 1, 1, 1, 1, 1, 1>>, <<1, 1, 1, 1, 1, 1, 0>> }
Devs == <<"nil", "cpu", "cpuT", "zero", "two", "neg", "max">>

DimCalls(S) ==
  LET q == SetToSeq(S) IN
  Flat([j \in 1..Len(q) |->
     LET fs == <<"Full", "Zeros", "Ones", "RandU", "RandN">> IN
     [m \in 1..5 |-> [C0 EXCEPT !.f = fs[m], !.dims = q[j], !.dev = Devs[1 + ((j + m) % 3)], !.nild = (q[j] = <<>> /\ m % 2 = 0)]]
     \o << LET g == <<"InitFull", "InitUniform", "InitNormal", "InitHeUniform", "InitHeNormal", "InitXavierUniform", "InitXavierNormal">>[1 + (j % 7)] IN
           [C0 EXCEPT !.f = g, !.dims = q[j], !.a = <<2, 3>>, !.nilc = (g \in {"InitFull", "InitUniform", "InitNormal"} /\ j % 2 = 0)] >>])
DevCalls ==
  Flat([v \in 1..Len(Devs) |->
     Flat([m \in 1..5 |-> [s \in 1..4 |-> [C0 EXCEPT !.f = <<"Full", "Zeros", "Ones", "RandU", "RandN">>[m], !.dims = << <<>>, <<2, 3>>, <<0>>, <<2, -1>> >>[s], !.dev = Devs[v]]]])
     \o [n \in 1..9 |-> [C0 EXCEPT !.f = "Eye", !.a = <<n - 3, 0>>, !.dev = Devs[v]]]
     \o << [C0 EXCEPT !.f = "Eye", !.a = <<MinI, 0>>, !.dev = Devs[v]],
           [C0 EXCEPT !.f = "TensorOf", !.a = <<1, 0>>, !.data = 2, !.dev = Devs[v]], [C0 EXCEPT !.f = "TensorOf", !.a = <<0, 0>>, !.data = 0, !.dev = Devs[v]],
           [C0 EXCEPT !.f = "TensorOf", !.a = <<2, 0>>, !.data = <<1, 2>>, !.dev = Devs[v]], [C0 EXCEPT !.f = "TensorOf", !.a = <<4, 0>>, !.data = << << <<2>> >> >>, !.dev = Devs[v]] >>])
RealCalls ==
  Flat([x \in 1..Len(Reals) |-> Flat([y \in 1..Len(Reals) |->
     [m \in 1..5 |-> [C0 EXCEPT !.f = <<"RandU", "RandN", "InitUniform", "InitNormal", "Full">>[m], !.dims = << <<>>, <<2>>, <<1, 2>>, <<0>> >>[1 + ((x + y + m) % 4)], !.p = <<x, y>>]]])])
FanCalls ==
  Flat([x \in 1..9 |-> Flat([y \in 1..9 |->
     [m \in 1..4 |-> [C0 EXCEPT !.f = <<"InitHeUniform", "InitHeNormal", "InitXavierUniform", "InitXavierNormal">>[m], !.a = <<x - 3, y - 3>>, !.dims = << <<2>>, <<>>, <<3, 1>>, <<-1>> >>[1 + ((x + y) % 4)]]]])])
  \o [m \in 1..7 |-> [C0 EXCEPT !.f = <<"InitFull", "InitUniform", "InitNormal", "InitHeUniform", "InitHeNormal", "InitXavierUniform", "InitXavierNormal">>[m], !.nilc = TRUE, !.dims = <<2>>]]
FCCalls ==
  << [C0 EXCEPT !.f = "NewFC", !.nilc = TRUE, !.k = <<"default", "default", "">>] >>
  \o Flat([x \in 1..9 |-> Flat([y \in 1..9 |-> << [C0 EXCEPT !.f = "NewFC", !.a = <<x - 3, y - 3>>, !.k = <<"default", "default", "">>],
                                             [C0 EXCEPT !.f = "NewFC", !.a = <<x - 3, y - 3>>, !.k = <<"good", "good", "">>] >>])])
  \o Flat([x \in 1..Len(InitKinds) |-> Flat([y \in 1..Len(InitKinds) |-> [o \in 1..3 |->
         [C0 EXCEPT !.f = "NewFC", !.a = <<2, o>>, !.k = <<InitKinds[x], InitKinds[y], "">>]]])])
OtherCalls ==
  [d \in 1..Len(DimVals) |-> [C0 EXCEPT !.f = "NewSoftmax", !.a = <<DimVals[d], 0>>]] \o << [C0 EXCEPT !.f = "NewSoftmax", !.nilc = TRUE] >>
  \o [m \in 1..14 |-> [C0 EXCEPT !.f = "NewOther", !.k = << <<"Relu", "LeakyRelu", "LeakyReluNil", "Sigmoid", "Tanh", "MSE", "BCE", "CE", "Accuracy", "SGD", "SGDNil", "Input", "FullNil", "Full">>[m], "", "">>]]
  \o Flat([n \in 1..4 |-> Flat([m \in 1..2 |-> [s \in 1..3 |-> [C0 EXCEPT !.f = "Input", !.a = <<n - 1, 0>>, !.k = <<<<"set", "unset">>[m], <<"nil", "ok">>[1 + ((n + s) % 2)], "">>, !.dims = << <<>>, <<2>>, <<2, 3>> >>[s]]]])])
  \o Flat([n \in 1..4 |-> Flat([w \in 1..3 |-> Flat([b \in 1..3 |-> Flat([x \in 1..2 |-> [s \in 1..6 |->
        [C0 EXCEPT !.f = "FCStruct", !.a = <<n - 1, 2>>, !.k = <<<<"nil", "ok", "odd">>[w], <<"nil", "ok", "odd">>[b], <<"nil", "ok">>[x]>>, !.dims = << <<>>, <<2>>, <<2, 3>>, <<1, 1>>, <<2, 2, 2>>, <<3, 1>> >>[s]]]])])])])
  \o Flat([m \in 1..15 |-> [s \in 1..3 |-> [C0 EXCEPT !.f = "ZeroComp", !.a = <<s, 0>>,
        !.k = << <<"Relu", "LeakyRelu", "Sigmoid", "Tanh", "Softmax", "MSE", "BCE", "CE", "Accuracy", "SGD", "Input", "FC", "Initializers", "InputNew", "Results">>[m], "", "">>]]])
  \o Flat([m \in 1..5 |-> [s \in 1..3 |-> [C0 EXCEPT !.f = "Update", !.k = <<<<"nilptr", "nil", "nograd", "untracked", "grad">>[m], "", "">>, !.dims = << <<>>, <<3>>, <<2, 2>> >>[s]]]])

(* nested data: rectangular data with up to two lengths changed somewhere, and small data of any form *)
RECURSIVE RectData(_)
RectData(s) == IF s = <<>> THEN 0 ELSE IF Len(s) = 1 THEN s[1] ELSE [j \in 1..s[1] |-> RectData(Tail(s))]
RECURSIVE Dev1(_, _)
Dev1(k, v) ==             \* every datum that differs from v at one list
  IF k = 0 THEN {} ELSE IF k = 1 THEN {v + 1, 0} \cup (IF v > 0 THEN {v - 1} ELSE {})
  ELSE {Append(v, IF k = 2 THEN 1 ELSE IF k = 3 THEN <<1>> ELSE <<<<1>>>>), Append(v, IF k = 2 THEN 0 ELSE <<>>), <<>>}
       \cup (IF v = <<>> THEN {} ELSE {Front(v), Tail(v), Append(v, v[1])})
       \cup UNION {{[v EXCEPT ![j] = x] : x \in Dev1(k - 1, v[j])} : j \in 1..Len(v)}
Data1 == {RectData(s) : s \in Shp(1, 1, {1, 2, 5})}
DataSeq(k) ==            \* [k, data] records, k: depth
  LET base == Shp(k, k, {1, 2})
      d1 == UNION {Dev1(k, RectData(s)) : s \in base}
      d2 == IF k < 2 THEN {} ELSE Sample(UNION {Dev1(k, v) : v \in d1}, IF k = 4 THEN 40 * Den ELSE IF k = 3 THEN 8 * Den ELSE 1)
  IN SetToSeq({RectData(s) : s \in base \cup Shp(k, k, {3}) \cup {[j \in 1..k |-> IF j = k THEN 4 ELSE 1]}} \cup d1 \cup d2)
DataCalls(k) ==
  LET q == DataSeq(k) IN
  [j \in 1..Len(q) |-> [C0 EXCEPT !.f = "TensorOf", !.a = <<k, 0>>, !.data = q[j], !.ne = (j % 2 = 0), !.dev = Devs[1 + (j % 3)]]]
  \o [j \in 1..Min2(Len(q), 60) |-> [C0 EXCEPT !.f = "TensorOf", !.a = <<k, 0>>, !.data = q[j], !.ne = (j % 2 = 1), !.dev = Devs[1 + (j % 7)]]]
RECURSIVE RData(_, _)
RData(r, k) == IF k = 1 THEN RPick(r, 1, <<2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 3, 0>>)
               ELSE LET n == RPick(r, 2, <<2, 2, 2, 2, 2, 2, 1, 3, 0>>) IN [j \in 1..n |-> RData(RMix(r, 10 + j), k - 1)]

Init == /\ Init0
        /\ \/ \E s \in Shapes03 \cup HighShapes : c = [k |-> "one", s |-> s]
           \/ \E s \in Shp(0, 2, D3) \cup Shp(3, 3, {1, 2}) \cup {<<3, 1, 2>>, <<2, 3, 3>>} : c = [k |-> "slice", s |-> s]
           \/ \E s \in Shapes03 : c = [k |-> "at", s |-> s]
           \/ \E s \in {s \in Shapes03 : NEl(s) <= 12} \cup {<<1, 1, 1, 1>>, <<2, 1, 3, 2>>, <<1, 2, 1, 3, 2>>} : c = [k |-> "shape", s |-> s]
           \/ \E i \in 1..Len(PairSeq) : \E k \in {"pair", "patch", "near"} : c = [k |-> k, i |-> i]
           \/ \E i \in -2..4 : c = [k |-> "cat", i |-> i]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ \E s \in Shp(0, 3, {1, 2}) \cup {<<3>>, <<5>>, <<3, 3>>, <<4, 2>>, <<7, 1>>, <<2, 1, 3, 2>>} : c = [k |-> "odd", s |-> s]
           \/ \E s \in Shp(0, 3, {1, 2}) \cup {<<3>>, <<2, 3>>, <<2, 1, 3, 2>>} : c = [k |-> "past", s |-> s]
           \/ \E k \in {"dims02", "dims3", "dims45", "devs", "reals", "fans", "fc", "other"} : c = [k |-> k, i |-> 0]
           \/ \E k \in 0..4 : c = [k |-> "data", i |-> k]
           \/ \E i \in 1..NData : c = [k |-> "rdata", i |-> i]

GenScript(cc) ==
  CASE cc.k = "one" -> << Leaf(cc.s, FALSE, "w"), Tries(OneTries(cc.s)), Leaf(cc.s, TRUE, "w"), Tries([j \in 1..Len(OneTries(cc.s)) |->
                            LET e == OneTries(cc.s)[j] IN <<e[1], [m \in 1..Len(e[2]) |-> IF e[2][m] = 1 THEN 2 ELSE e[2][m]], e[3]>>]) >>
    [] cc.k = "slice" -> << Leaf(cc.s, TRUE, "w"), Tries(SliceTries(cc.s)) >>
    [] cc.k = "at" -> << Leaf(cc.s, FALSE, "w"), Tries(AtTries(cc.s)) >>
    [] cc.k = "shape" -> << Leaf(cc.s, Len(cc.s) % 2 = 0, "w"), Tries(ShapeTries(cc.s)) >>
    [] cc.k = "pair" -> PairLeaves \o << Tries(PairTries(cc.i)) >>
    [] cc.k = "patch" -> PairLeaves \o << Tries(PatchTries(cc.i)) >>
    [] cc.k = "near" -> PairLeaves \o << Tries(PatchNear(cc.i)) >>
    [] cc.k = "cat" -> [j \in 1..7 |-> Leaf(CatSeq[j], j % 2 = 0, "w")] \o << Tries(ConcatTries(cc.i)) >>
    [] cc.k = "rnd" -> RndScript(cc.i)
    [] cc.k = "odd" -> [j \in 1..16 |-> Leaf(cc.s, j % 2 = 1, "odd")] \o [j \in 1..8 |-> Tries(OddTries(cc.s, 2 * j - 2))]
    [] cc.k = "past" -> PastScript(cc.s)
    [] cc.k = "dims02" -> << Calls(DimCalls(Dims02)) >>
    [] cc.k = "dims3" -> << Calls(DimCalls(Dims3)) >>
    [] cc.k = "dims45" -> << Calls(DimCalls(Dims45 \cup DimsX)) >>
    [] cc.k = "devs" -> << Calls(DevCalls) >>
    [] cc.k = "reals" -> << Calls(RealCalls) >>
    [] cc.k = "fans" -> << Calls(FanCalls) >>
    [] cc.k = "fc" -> << Calls(FCCalls) >>
    [] cc.k = "other" -> << Calls(OtherCalls) >>
    [] cc.k = "data" -> << Calls(IF cc.i = 0 THEN << [C0 EXCEPT !.f = "TensorOf", !.a = <<0, 0>>, !.data = 0] >> ELSE DataCalls(cc.i)) >>
    [] cc.k = "rdata" -> LET r == RSeed(Seed, cc.i) IN
         << Calls([j \in 1..50 |-> LET k == RPick(RMix(r, j), 5, <<2, 3, 3, 4, 4, 4>>) IN
                     [C0 EXCEPT !.f = "TensorOf", !.a = <<k, 0>>, !.data = RData(RMix(r, j), k), !.ne = (j % 2 = 0), !.dev = Devs[1 + (j % 3)]]]) >>
=============================================================================
