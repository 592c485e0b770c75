------------------------------- MODULE Gen_Large ----------------------------
(* Operations on tensors of 10^4 to 10^5 elements, specified at sampled elements.     *)
(*                                                                                  *)
(* The machine of Qeep writes the terms of all elements; here only those of a set P   *)
(* of positions of the result are written (sp), which is enough to judge them, as the  *)
(* driver evaluates terms over the operands' observed elements.  For gradients the      *)
(* result is weighted by a mask that is zero outside P: then every adjoint that does    *)
(* not depend on an element of P is exactly zero (the adjoint equations of Qeep), and   *)
(* the others are the sums of the contributions written here.                           *)
EXTENDS Prog

CONSTANTS Seed, Group, NPos, NDrawn, Back      \* Back: gradients too; NDrawn: drawn arguments per operation

(* ---- arguments ---- *)
LB(ss, par) == [ss |-> ss, par |-> par]
PD_(d) == [Par1 EXCEPT !.d = d]
LShapes == << <<70000>>, <<300, 230>>, <<3, 50, 7, 65>>, <<4099>>, <<2, 16385>>, <<10007, 1>> >>
LPairs == << << <<66000>>, <<66000>> >>, << <<70000>>, <<1>> >>, << <<260, 1>>, <<1, 260>> >>, << <<300, 230>>, <<230>> >>,
             << <<40, 1, 50>>, <<1, 30, 50>> >>, << <<>>, <<130, 130>> >>, << <<130, 1, 7>>, <<130, 20, 7>> >>, << <<129, 129>>, <<129, 129>> >> >>
(* fibres are kept short where the derivative of one element mentions the whole fibre twice *)
LReds == << <<700, 60, 0>>, <<60, 700, 1>>, <<60, 700, 0>>, <<700, 50, 1>>, <<2, 20000, 0>>, <<30, 40, 50, 1>>, <<12, 13, 14, 15, 2>>, <<20000, 3, 1>>, <<4097, 5, 1>> >>
LRed(op, d) == LET q == LReds[d] IN LB(<<SubSeq(q, 1, Len(q) - 1)>>, PD_(q[Len(q)]))
LargeArgs(op) ==
  LET SS(par) == [j \in 1..Len(LShapes) |-> LB(<<LShapes[j]>>, par)] IN
  CASE op = "Scale" -> SS([Par1 EXCEPT !.q = <<-7, 3>>])
    [] op = "Pow" -> SS([Par1 EXCEPT !.q = <<3, 1>>]) \o <<LB(<<<<70001>>>>, [Par1 EXCEPT !.q = <<2, 1>>]), LB(<<<<90, 800>>>>, [Par1 EXCEPT !.q = <<-1, 1>>])>>
    [] op = "LeakyRelu" -> SS([Par1 EXCEPT !.q = <<1, 5>>])
    [] op \in UnaryOps \cup {"Relu", "Sigmoid", "TanhAct"} -> SS(Par1)
    [] op \in CmpOps \cup ElOps -> [j \in 1..Len(LShapes) |-> LB(<<LShapes[j], LShapes[j]>>, Par1)]
    [] op \in ArithOps -> [j \in 1..Len(LPairs) |-> LB(LPairs[j], Par1)] \o [j \in 1..Len(LPairs) |-> LB(Reverse(LPairs[j]), Par1)]
    [] op \in {"SumAlong", "AvgAlong", "MeanAlong"} -> [d \in 1..Len(LReds) |-> LRed(op, d)] \o <<LB(<<<<9000>>>>, PD_(0)), LB(<<<<3, 3000, 2>>>>, PD_(1))>>
    [] op \in RedOps \cup {"Softmax"} -> IF Back THEN [d \in 1..(Len(LReds) - 2) |-> LRed(op, d + 2)] ELSE [d \in 1..Len(LReds) |-> LRed(op, d)]
                     \o ( <<LB(<<<<9000>>>>, PD_(0)), LB(<<<<3, 3000, 2>>>>, PD_(1)), LB(<<<<4100, 2>>>>, PD_(0))>>)
    [] op = "Slice" -> << LB(<<<<70000>>>>, PR(<< <<100, 69000>> >>)), LB(<<<<300, 230>>>>, PR(<< <<0, 0>>, <<1, 230>> >>)), LB(<<<<300, 230>>>>, PR(<< <<280, 300>> >>)),
                          LB(<<<<20, 30, 40, 3>>>>, PR(<< <<3, 19>>, <<0, 0>>, <<1, 40>>, <<1, 3>> >>)) >>
    [] op = "Patch" -> << LB(<<<<70000>>, <<65600>>>>, PR(<< <<4000, 69600>> >>)), LB(<<<<300, 230>>, <<299, 200>>>>, PR(<< <<1, 300>>, <<0, 200>> >>)),
                          LB(<<<<300, 230>>, <<1, 1>>>>, PR(<< <<299, 300>>, <<229, 230>> >>)), LB(<<<<20, 30, 40, 3>>, <<20, 30, 1, 3>>>>, PR(<< <<0, 0>>, <<0, 0>>, <<39, 40>> >>)) >>
    [] op = "Concat" -> << LB(<< <<40000>>, <<30000>> >>, PD_(0)), LB(<< <<200, 100>>, <<200, 150>> >>, PD_(1)), LB([j \in 1..60 |-> <<500 + j>>], PD_(0)),
                           LB(<< <<300, 70>>, <<1, 70>>, <<260, 70>> >>, PD_(0)), LB([j \in 1..33 |-> <<8, j, 40>>], PD_(1)) >>
    [] op = "Transpose" -> << LB(<<<<300, 230>>>>, Par1), LB(<<<<30, 50, 40>>>>, Par1), LB(<<<<40000, 2>>>>, Par1), LB(<<<<1, 70000>>>>, Par1), LB(<<<<260, 260>>>>, Par1) >>
    [] op = "Reshape" -> << LB(<<<<300, 230>>>>, PS(<<69000>>)), LB(<<<<69000>>>>, PS(<<23, 30, 100>>)), LB(<<<<30, 50, 40>>>>, PS(<<40, 1, 50, 30>>)) >>
    [] op = "UnSqueeze" -> << LB(<<<<300, 230>>>>, PD_(1)), LB(<<<<70000>>>>, PD_(0)), LB(<<<<30, 50, 40>>>>, PD_(3)) >>
    [] op = "Squeeze" -> << LB(<<<<300, 1, 230>>>>, PD_(1)), LB(<<<<1, 70000>>>>, PD_(0)) >>
    [] op = "Flatten" -> << LB(<<<<300, 230>>>>, PD_(0)), LB(<<<<30, 50, 40>>>>, PD_(1)) >>
    [] op = "Broadcast" -> << LB(<<<<300, 230>>>>, PS(<<300, 230>>)) >> \o
                           (IF Back THEN <<>> ELSE << LB(<<<<1, 300>>>>, PS(<<230, 300>>)), LB(<<<<300, 1>>>>, PS(<<300, 230>>)), LB(<<<<>>>>, PS(<<66000>>)), LB(<<<<50, 1, 40>>>>, PS(<<3, 50, 11, 40>>)) >>)
    [] op = "Dot" -> << LB(<< <<9000>>, <<9000>> >>, Par1), LB(<< <<300, 40>>, <<300, 40>> >>, Par1), LB(<< <<20000, 3>>, <<3>> >>, Par1), LB(<< <<30, 1, 40>>, <<50, 40>> >>, Par1),
                        LB(<< <<2, 4100>>, <<2, 4100>> >>, Par1), LB(<< <<128, 128>>, <<128, 128>> >>, Par1) >>
    [] op = "MatMul" -> << LB(<< <<300, 40>>, <<40, 200>> >>, Par1), LB(<< <<90, 300>>, <<300, 100>> >>, Par1), LB(<< <<50, 8, 9>>, <<50, 9, 7>> >>, Par1), LB(<< <<2000, 3>>, <<3, 30>> >>, Par1),
                           LB(<< <<130, 130>>, <<130, 130>> >>, Par1), LB(<< <<1, 4100>>, <<4100, 1>> >>, Par1), LB(<< <<20, 1, 9, 8>>, <<30, 8, 7>> >>, Par1), LB(<< <<128, 64>>, <<64, 128>> >>, Par1),
                           LB(<< <<5000, 1>>, <<1, 3>> >>, Par1) >>
    [] op \in {"MSE", "BCE"} -> << LB(<<<<5000>>, <<5000>>>>, Par1), LB(<<<<1031>>, <<1031>>>>, Par1) >>
    [] op = "CE" -> << LB(<<<<300, 20>>, <<300, 20>>>>, Par1), LB(<<<<3, 1500>>, <<3, 1500>>>>, Par1), LB(<<<<1025, 4>>, <<1025, 4>>>>, Par1) >>
    [] op = "FC" -> << LB(<<<<200, 80>>, <<90>>, <<90>>>>, Par1), LB(<<<<2000, 3>>, <<5>>, <<5>>>>, Par1), LB(<<<<2, 2000>>, <<7>>, <<7>>>>, Par1), LB(<<<<3, 5>>, <<3000>>, <<3000>>>>, Par1) >>

(* drawn arguments: sizes in the tens, hundreds and thousands with nothing round about them  *)
Mid(r, k) == CASE RInt(r, k, 4) = 0 -> RRange(r, k + 1, 2, 20) [] RInt(r, k, 4) = 1 -> RRange(r, k + 1, 15, 70) [] OTHER -> RRange(r, k + 1, 60, 330)
DShape(r, k, lo) ==
  LET m == Mid(r, k)  q == RRange(r, k + 4, 2, 40)  w == RRange(r, k + 5, 1, 7) IN
  CASE RInt(r, k + 6, 6) = 0 -> (IF lo > 1 THEN <<m, q>> ELSE <<RRange(r, k + 7, 30, 5000)>>)
    [] RInt(r, k + 6, 6) = 1 -> <<q, m>>
    [] RInt(r, k + 6, 6) = 2 -> <<m, q>>
    [] RInt(r, k + 6, 6) = 3 -> <<w, m, RRange(r, k + 8, 1, 9)>>
    [] RInt(r, k + 6, 6) = 4 -> <<RRange(r, k + 8, 1, 5), w, q, RRange(r, k + 9, 1, 20)>>
    [] OTHER -> <<w, q, RRange(r, k + 8, 2, 30)>>
DrawnArg(op, i) ==
  LET r == RSeed(Seed, 977 * i + 13 * Len(op))
      s == DShape(r, 100, 1)
      s2 == DShape(r, 100, 2)
      d == RInt(r, 1, Len(s))
      bc == ~Back \/ Group # "C02"
      (* of two operands one is expanded, the other, or both *)
      pair(t) == LET w == RInt(r, 2, 3) IN
                 << IF bc /\ w # 1 THEN RShrunk(r, 200, t, 2) ELSE t, IF bc /\ w # 0 THEN RShrunk(r, 300, t, 2) ELSE t >>
      n == RRange(r, 3, 1, 150)
      batch == RPick(r, 4, << <<>>, <<>>, <<2>>, <<3, 1>>, <<RRange(r, 5, 2, 30)>> >>)
      md == IF batch = <<>> THEN 120 ELSE 14
  IN
  CASE op \in {"Scale", "Pow", "LeakyRelu"} -> LB(<<s>>, LargeArgs(op)[1].par)
    [] op \in UnaryOps \cup {"Relu", "Sigmoid", "TanhAct"} -> LB(<<s>>, Par1)
    [] op \in CmpOps \cup ElOps -> LB(<<s, s>>, Par1)
    [] op \in ArithOps -> LB(pair(s), Par1)
    [] op \in RedOps \cup {"Softmax"} ->
         LB(<<IF Back /\ op \notin {"SumAlong", "AvgAlong", "MeanAlong"} /\ s[d + 1] > 110 THEN [s EXCEPT ![d + 1] = 40 + (@ % 70)] ELSE s>>, PD_(d))
    [] op = "Slice" -> LB(<<s>>, PR([j \in 1..RInt(r, 6, Len(s) + 1) |-> RRangeOf(r, 40 + 5 * j, s[j])]))
    [] op = "Patch" -> LET src == [j \in 1..Len(s) |-> RRange(r, 40 + j, 1, s[j])] IN
                       LB(<<s, src>>, PR([j \in 1..RInt(r, 6, Len(s) + 1) |-> IF RChance(r, 50 + j, 1, 3) THEN <<0, 0>>
                                             ELSE LET f == RRange(r, 60 + j, 0, s[j] - src[j]) IN <<f, f + src[j]>>]))
    [] op = "Concat" -> LET t == [s EXCEPT ![Len(s)] = IF @ > 60 THEN 60 ELSE @]
                            e == RInt(r, 1, Len(t)) IN
                        LB([k \in 1..RRange(r, 7, 2, 24) |-> [t EXCEPT ![e + 1] = RRange(r, 30 + k, 1, 6)]], PD_(e))
    [] op = "Transpose" -> LB(<<s2>>, Par1)
    [] op = "Reshape" -> LB(<<s>>, PS(RRegroup(r, 400, s)))
    [] op = "UnSqueeze" -> LB(<<s>>, PD_(RInt(r, 6, Len(s) + 1)))
    [] op = "Squeeze" -> LET e == RInt(r, 6, Len(s) + 1) IN LB(<<InsAt(s, e + 1, 1)>>, PD_(e))
    [] op = "Flatten" -> LB(<<s>>, PD_(d))
    [] op = "Broadcast" -> LB(<<IF Back THEN s ELSE RShrunk(r, 200, s, 2)>>, PS(s))
    [] op = "Dot" -> LET t == pair(IF Len(s) > 1 THEN SubSeq(s, 1, Len(s) - 1) ELSE <<>>) IN LB(<<t[1] \o <<n>>, t[2] \o <<n>>>>, Par1)
    [] op = "MatMul" -> LET t == pair(batch)  m == RRange(r, 8, 1, md)  p == RRange(r, 9, 1, md)  q == RRange(r, 10, 1, md) IN
                        LB(<<t[1] \o <<m, p>>, t[2] \o <<p, q>>>>, Par1)
    [] op \in {"MSE", "BCE"} -> LET m == RRange(r, 8, 8, IF RBool(r, 9) THEN 200 ELSE 3000) IN LB(<<<<m>>, <<m>>>>, Par1)
    [] op = "CE" -> LET t == IF RBool(r, 8) THEN <<RRange(r, 9, 6, 400), RRange(r, 10, 1, 12)>> ELSE <<RRange(r, 9, 1, 12), RRange(r, 10, 6, 400)>> IN LB(<<t, t>>, Par1)
    [] op = "FC" -> LET b == RRange(r, 8, 1, IF RBool(r, 11) THEN 300 ELSE 40)  f == RRange(r, 9, 1, 70)  o == RRange(r, 10, 1, IF b > 100 THEN 20 ELSE 90) IN
                    LB(<<<<b, f>>, <<o>>, <<o>>>>, Par1)
LArg(op, i) == LET q == LargeArgs(op) IN IF i <= Len(q) THEN q[i] ELSE DrawnArg(op, i - Len(q))

SameShapes(a) == \A j \in 2..Len(a.ss) : a.ss[j] = a.ss[1]
Wanted(op, a) ==
  CASE Group = "C02" -> (op \in ArithOps \cup {"Dot"} => SameShapes(a)) /\ (op = "MatMul" => BatchOf(a.ss[1], 2) = BatchOf(a.ss[2], 2))
    [] Group = "C07" -> (op \in ArithOps \cup {"Dot"} => ~SameShapes(a)) /\ (op = "MatMul" => BatchOf(a.ss[1], 2) # BatchOf(a.ss[2], 2))
    [] OTHER -> TRUE
GroupOps == CASE Group = "C03" -> UnaryOps \cup ArithOps \cup ElOps \cup CmpOps
              [] Group = "C04" -> {"MatMul", "Dot", "Transpose"}
              [] Group = "C05" -> RedOps
              [] Group = "C06" -> {"Slice", "Patch", "Concat", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast"}
              [] Group \in {"C01", "C02"} -> UnaryOps \cup ArithOps \cup RedOps \cup ElOps \cup
                   {"Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Dot", "MatMul", "Broadcast"}
              [] Group = "C07" -> ArithOps \cup {"Dot", "MatMul"}
              [] Group \in {"C12", "C13"} -> Losses
              [] Group \in {"C14", "C15"} -> Activations
              [] Group = "C16" -> {"FC"}
              [] Group = "C17" -> {"Scale", "Mul", "SumAlong"}
              [] Group \in {"C08", "C10", "C20"} -> AllOps

(* ---- observations of whole large tensors ---- *)
WShapes == << <<70001>>, <<263, 521>>, <<2, 3, 4, 5, 6, 7, 8>>, <<131072>>, <<300007>>, <<1, 65537>> >>
WStats == << "Sum", "Max", "Min", "Avg", "Mean", "Var", "Std" >>
StatRun(op, n, k) == LET ts == << <<"run", n, 0, 1, k>> >> IN IF op = "Sum" THEN <<"+", ts>> ELSE Stat(op, ts)

(* one or two arguments of every operation *)
Size(a) == FoldLeft(LAMBDA x, q : x + NEl(q), 0, a.ss)
Few(op) == LET q == LargeArgs(op)  m == Len(q) IN
           IF Group = "C20" /\ Back THEN LET b == CHOOSE v \in 1..m : \A w \in 1..m : Size(q[v]) <= Size(q[w]) IN {b}
           ELSE {1 + ((Seed + Len(op)) % m)} \cup (IF Group = "C10" THEN {1 + ((Seed + 2) % m)} ELSE {})

(* ---- a case: operation, argument, tracked operands ---- *)
Init == /\ Init0
        /\ \/ \E op \in GroupOps : \E i \in 1..(Len(LargeArgs(op)) + NDrawn) :
               LET a == LArg(op, i) IN
               /\ Wanted(op, a)
               /\ (Group \in {"C01", "C08", "C10", "C20"} => i \in Few(op) \/ i > Len(LargeArgs(op)))
               /\ (Back => op \notin CmpOps)
               /\ c = [k |-> "large", op |-> op, i |-> i]
           \/ /\ Group = "C05"
              /\ \E d \in {"sum", "any", "var"} : \E i \in 1..Len(WShapes) : c = [k |-> "stat", d |-> d, i |-> i]
           \/ /\ Group = "C03"
              /\ \E v \in 1..4 : \E i \in 1..Len(WShapes) : c = [k |-> "equals", v |-> v, i |-> i]

LDom(op, par, j) ==
  CASE op \in {"VarAlong", "StdAlong"} -> (IF Back THEN DomOf(op, par, j) ELSE "var")
    [] op \in {"MaxAlong", "MinAlong"} -> (IF Back THEN DomOf(op, par, j) ELSE "any")
    [] op \in {"BCE", "CE"} -> (IF j = 1 THEN "prob" ELSE "prob")
    [] OTHER -> DomOf(op, par, j)

Positions(n, r) ==
  LET S == {0, n - 1, n \div 2} \cup {RInt(r, 40 + j, n) : j \in 1..NPos} \cup {p \in {63, 64, 1023, 1024, 4095, 4096, 65535, 65536} : p < n /\ RChance(r, p, 1, 2)}
  IN SetToSortSeq(S, LAMBDA x, y : x < y)

Sp(P, T(_)) == TLCEval([j \in 1..Len(P) |-> <<P[j], T(P[j])>>])

LargeScript(cc) ==
  LET op == cc.op
      a == LArg(op, cc.i)
      r == RSeed(Seed, 31 * cc.i + Len(a.ss[1]))
      n == Len(a.ss)
      fc == op = "FC"
      upd == Group = "C17"
      os == ResultShape(op, a.ss, a.par)
      P == Positions(NEl(os), r)
      trk == IF ~Back THEN {j \in 1..n : RChance(r, j, 1, 3)}
             ELSE LET T == {j \in 1..n : RChance(r, j, 2, 3)} IN IF fc THEN {2, 3} \cup T ELSE IF T = {} \/ upd THEN {1} \cup T ELSE T
      leaf(j) == [t |-> "leaf", id |-> j, sh |-> a.ss[j], tr |-> j \in trk, dom |-> LDom(op, a.par, j), via |-> "TensorOf", q |-> <<0, 1>>, el |-> <<>>]
      xs == [j \in 1..n |-> [id |-> j, sh |-> a.ss[j]]]
      T(p) == TLCEval(ElemT(op, xs, a.par, os, p))
      leaves == IF fc THEN <<leaf(1), [t |-> "fcnew", w |-> 2, b |-> 3, s |-> 1, ins |-> a.ss[1][2], outs |-> a.ss[2][1], init |-> "custom", dom |-> "w", sh |-> a.ss[2]]>>
                ELSE [j \in 1..n |-> leaf(j)]
      slot == IF upd THEN <<[t |-> "slot", s |-> 1, n |-> 1]>> ELSE <<>>
      scalar == os = <<>>
      re == Group = "C01" /\ ~scalar       \* the result is used twice
      K == IF scalar THEN 1 ELSE IF re THEN 6 ELSE 3
      (* the k-th graph over the operands *)
      Y(k) == n + (k - 1) * K + 1
      M(k) == Y(k) + 1
      Z(k) == Y(k) + 2
      M2(k) == Y(k) + 3
      Z2(k) == Y(k) + 4
      W(k) == Y(k) + 5
      apply(k) == IF fc THEN [t |-> "fcfwd", s |-> 1, x |-> 1, ok |-> TRUE, id |-> Y(k), sh |-> os, sp |-> Sp(P, T), in |-> <<1, 2, 3>>]
               ELSE [t |-> "op", op |-> op, in |-> [j \in 1..n |-> j], par |-> a.par, ok |-> TRUE, id |-> Y(k), sh |-> os, sp |-> Sp(P, T)]
      mask(k) == IF scalar THEN <<>> ELSE
              << [t |-> "leaf", id |-> M(k), sh |-> os, tr |-> FALSE, dom |-> "G", via |-> "TensorOf", q |-> <<0, 1>>, el |-> <<>>, idx |-> P],
                 [t |-> "op", op |-> "Mul", in |-> <<Y(k), M(k)>>, par |-> Par1, ok |-> TRUE, id |-> Z(k), sh |-> os, sp |-> Sp(P, LAMBDA p : ProdT(<<X(Y(k), p), X(M(k), p)>>))] >>
              \o (IF ~re THEN <<>> ELSE
              << [t |-> "leaf", id |-> M2(k), sh |-> os, tr |-> FALSE, dom |-> "G", via |-> "TensorOf", q |-> <<0, 1>>, el |-> <<>>, idx |-> P],
                 [t |-> "op", op |-> "Mul", in |-> <<M2(k), Y(k)>>, par |-> Par1, ok |-> TRUE, id |-> Z2(k), sh |-> os, sp |-> Sp(P, LAMBDA p : ProdT(<<X(M2(k), p), X(Y(k), p)>>))],
                 [t |-> "op", op |-> "Sub", in |-> <<Z2(k), Z(k)>>, par |-> Par1, ok |-> TRUE, id |-> W(k), sh |-> os, sp |-> Sp(P, LAMBDA p : SubT(X(Z2(k), p), X(Z(k), p)))] >>)
      (* contributions to the operands: <<position, summand>>, several may meet in one element *)
      contribs(k) == TLCEval(Flat([j \in 1..Len(P) |->
                    LET rv == TLCEval(Rev(T(P[j]), OneT)) IN
                    [e \in 1..Len(rv) |-> <<rv[e][1], <<rv[e][2], ProdT(<< <<"a", k, Y(k), P[j]>>, rv[e][3] >>)>> >>]]))
      (* (a summary equation: default value and summands of single elements) *)
      eq(nn, def, sp) == [n |-> nn, def |-> def, sp |-> sp, el |-> <<>>]
      tseq == SelectSeq([j \in 1..n |-> j], LAMBDA j : j \in trk)
      eqs(k) == (IF scalar THEN <<eq(Y(k), 1, <<>>)>>
                 ELSE IF re
                 THEN <<eq(W(k), 1, <<>>), eq(Z2(k), 1, <<>>), eq(Z(k), -1, <<>>),
                        eq(Y(k), 0, Sp(P, LAMBDA p : SubT(ProdT(<< <<"a", k, Z2(k), p>>, X(M2(k), p)>>), X(M(k), p))))>>
                 ELSE <<eq(Z(k), 1, <<>>), eq(Y(k), 0, Sp(P, LAMBDA p : ProdT(<< <<"a", k, Z(k), p>>, X(M(k), p)>>)))>>)
                \o (LET cs == contribs(k) IN
                    [j \in 1..Len(tseq) |-> eq(tseq[j], 0, LET q == SelectSeq(cs, LAMBDA e : e[1] = tseq[j]) IN [e \in 1..Len(q) |-> q[e][2]])])
      bp(k) == [t |-> "bp", root |-> IF scalar THEN Y(k) ELSE IF re THEN W(k) ELSE Z(k), ok |-> TRUE, k |-> k, links |-> 0, eqs |-> eqs(k)]
      PU == Positions(NEl(a.ss[1]), RMix(r, 3))
      id == Y(1) + K
      update == << [t |-> "upd", s |-> 1, lr |-> <<1, 3>>, nilc |-> FALSE, ok |-> TRUE, id |-> id, sh |-> a.ss[1],
                    sp |-> Sp(SetToSortSeq({PU[j] : j \in 1..Len(PU)} \cup (IF a.ss[1] = os THEN {P[j] : j \in 1..Len(P)} ELSE {}), LAMBDA u, v : u < v),
                              LAMBDA p : SubT(X(1, p), <<"*", <<ConstT(<<1, 3>>), <<"a", 1, 1, p>>>>>>))] >>
      (* two graphs over the same operands, back-propagated one after the other: gradients accumulate *)
      twice == Back /\ ~upd /\ (Group = "C10" \/ RChance(r, 50, 1, IF re THEN 2 ELSE 3))
  IN leaves \o slot \o
     (IF ~Back THEN <<apply(1)>>
      ELSE IF twice THEN <<apply(1)>> \o mask(1) \o <<apply(2)>> \o mask(2) \o <<bp(1), bp(2)>>
      ELSE <<apply(1)>> \o mask(1) \o <<bp(1)>> \o (IF upd THEN update ELSE <<>>))

(* concurrent versions: goroutines apply the operation to the same tensors; with Back, each *)
(* back-propagates through its own leaves in place of the tracked operands                   *)
ConcScript(cc) ==
  LET op == cc.op
      a == LArg(op, cc.i)
      r == RSeed(Seed, 37 * cc.i + Len(a.ss[1]))
      fc == op = "FC"
      n == Len(a.ss)
      os == ResultShape(op, a.ss, a.par)
      P == Positions(NEl(os), r)
      scalar == os = <<>>
      own == IF ~Back THEN <<>> ELSE IF fc THEN <<2, 3>> ELSE IF n = 1 THEN <<1>> ELSE <<RRange(r, 2, 1, n)>>
      K == Len(own) + (IF ~Back \/ scalar THEN 1 ELSE 3)
      leaf(id, j, tr) == [t |-> "leaf", id |-> id, sh |-> a.ss[j], tr |-> tr, dom |-> LDom(op, a.par, j), via |-> "TensorOf", q |-> <<0, 1>>, el |-> <<>>]
      setup == IF fc THEN (IF Back THEN <<leaf(1, 1, FALSE)>> ELSE <<leaf(1, 1, RBool(r, 3)), [t |-> "fcnew", w |-> 2, b |-> 3, s |-> 1, ins |-> a.ss[1][2], outs |-> a.ss[2][1], init |-> "custom", dom |-> "w", sh |-> a.ss[2]]>>)
               ELSE [j \in 1..n |-> leaf(j, j, ~Back /\ RBool(r, 3 + j))]
      n0 == IF fc /\ Back THEN 1 ELSE n
      prog(g) ==
        LET base == n0 + (g - 1) * K
            idx(j) == CHOOSE k \in 1..Len(own) : own[k] = j
            opid(j) == IF \E k \in 1..Len(own) : own[k] = j THEN base + idx(j) ELSE j
            xs == [j \in 1..n |-> [id |-> opid(j), sh |-> a.ss[j]]]
            y == base + Len(own) + 1  m == y + 1  z == y + 2
            T(p) == TLCEval(ElemT(op, xs, a.par, os, p))
            contribs == TLCEval(Flat([j \in 1..Len(P) |->
                          LET rv == TLCEval(Rev(T(P[j]), OneT)) IN
                          [k \in 1..Len(rv) |-> <<rv[k][1], <<rv[k][2], ProdT(<< <<"a", g, y, P[j]>>, rv[k][3] >>)>> >>]]))
            of(id) == LET q == SelectSeq(contribs, LAMBDA e : e[1] = id) IN [k \in 1..Len(q) |-> q[k][2]]
            eq(nn, def, sp) == [n |-> nn, def |-> def, sp |-> sp, el |-> <<>>]
            eqs == (IF scalar THEN <<eq(y, 1, <<>>)>> ELSE <<eq(z, 1, <<>>), eq(y, 0, Sp(P, LAMBDA p : ProdT(<< <<"a", g, z, p>>, X(m, p)>>)))>>)
                   \o [k \in 1..Len(own) |-> eq(base + k, 0, of(base + k))]
        IN << [t |-> "thr", g |-> g] >>
           \o (IF fc /\ Back THEN << [t |-> "fcnew", w |-> base + 1, b |-> base + 2, s |-> g, ins |-> a.ss[1][2], outs |-> a.ss[2][1], init |-> "custom", dom |-> "w", sh |-> a.ss[2]] >>
               ELSE [k \in 1..Len(own) |-> leaf(base + k, own[k], TRUE)])
           \o << IF fc THEN [t |-> "fcfwd", s |-> IF Back THEN g ELSE 1, x |-> 1, ok |-> TRUE, id |-> y, sh |-> os, sp |-> Sp(P, T), in |-> [j \in 1..n |-> opid(j)]]
                  ELSE [t |-> "op", op |-> op, in |-> [j \in 1..n |-> opid(j)], par |-> a.par, ok |-> TRUE, id |-> y, sh |-> os, sp |-> Sp(P, T)] >>
           \o (IF ~Back THEN <<>>
               ELSE (IF scalar THEN <<>>
                     ELSE << [t |-> "leaf", id |-> m, sh |-> os, tr |-> FALSE, dom |-> "G", via |-> "TensorOf", q |-> <<0, 1>>, el |-> <<>>, idx |-> P],
                             [t |-> "op", op |-> "Mul", in |-> <<y, m>>, par |-> Par1, ok |-> TRUE, id |-> z, sh |-> os, sp |-> Sp(P, LAMBDA p : ProdT(<<X(y, p), X(m, p)>>))] >>)
                    \o << [t |-> "bp", root |-> IF scalar THEN y ELSE z, ok |-> TRUE, k |-> g, links |-> 0, eqs |-> eqs] >>)
  IN setup \o prog(1) \o prog(2) \o prog(3)

(* Sum .. Std of a large tensor; Equals of a large tensor with an equal one and with    *)
(* ones that differ at the first, the last and another position                          *)
WLeaf(id, s, d) == [t |-> "leaf", id |-> id, sh |-> s, tr |-> FALSE, dom |-> d, via |-> "TensorOf", q |-> <<0, 1>>, el |-> <<>>]
StatScript(cc) ==
  LET s == WShapes[cc.i] IN
  <<WLeaf(1, s, cc.d)>> \o
  Flat([j \in 1..Len(WStats) |-> IF (WStats[j] \in {"Var", "Std"} /\ cc.d # "var") \/ (WStats[j] \in {"Sum", "Avg", "Mean"} /\ cc.d = "any") THEN <<>>
                                 ELSE <<[t |-> "scalar", op |-> WStats[j], n |-> 1, el |-> StatRun(WStats[j], 1, NEl(s))]>>])
EqualsScript(cc) ==
  LET s == WShapes[cc.i]
      p == CASE cc.v = 1 -> 0 [] cc.v = 2 -> NEl(s) - 1 [] OTHER -> RInt(RSeed(Seed, 7 * cc.i + cc.v), 1, NEl(s))
      at == Unlin(p, s)
      eqv(n, m) == [t |-> "equals", n |-> n, m |-> m, ok |-> TRUE, el |-> << <<"cmprun", "eq", n, m, NEl(s)>> >>]
      op(o, in, par, id, sh, f) == [t |-> "op", op |-> o, in |-> in, par |-> par, ok |-> TRUE, id |-> id, sh |-> sh, sp |-> <<<<p, f>>>>]
  IN << WLeaf(1, s, "any"), op("Scale", <<1>>, [Par1 EXCEPT !.q = <<1, 1>>], 2, s, ProdT(<<Q(1, 1), X(1, p)>>)), eqv(1, 2), eqv(2, 1),
        WLeaf(3, [j \in 1..Len(s) |-> 1], "any"), op("Patch", <<1, 3>>, PR([j \in 1..Len(s) |-> <<at[j], at[j] + 1>>]), 4, s, X(3, 0)),
        eqv(1, 4), eqv(4, 2), eqv(4, 4) >>

Emit == /\ pc = 0
        /\ PrintT(ToJson([case |-> c, ev |-> CASE c.k = "large" /\ Group = "C20" -> ConcScript(c) [] c.k = "large" -> LargeScript(c) [] c.k = "stat" -> StatScript(c) [] OTHER -> EqualsScript(c)]))
        /\ pc' = 1
        /\ UNCHANGED <<c, script, h>>
NextL == Emit
GenScript(cc) == <<>>
=============================================================================
