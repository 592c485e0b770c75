------------------------------- MODULE Gen_C01 -----------------------------
(* Random computations over tracked and untracked leaves in which intermediates   *)
(* are reused, back-propagated; optionally a second graph that shares only the     *)
(* leaves; a third back-propagation after ResetGradContext.                        *)
EXTENDS Prog

CONSTANTS Seed, NRandom, MaxOps, NTiny, NWalk, Depths, Chains

DiffSeq == << "Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh",
              "Add", "Sub", "Mul", "Div", "Add", "Sub", "Mul", "Mul", "Add", "ElMax", "ElMin",
              "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong",
              "Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten",
              "Broadcast", "Dot", "MatMul", "MatMul", "Slice", "Concat", "Patch" >>
ActSeq == << "Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax" >>

Leaves(st) == SelectSeq(st.pool, LAMBDA n : st.rq[n].t = "leaf")     \* request n makes tensor n here

RndScript(i) ==
  LET r == RSeed(Seed, 7 * i + 1)
      cf == [max |-> RPick(r, 800, <<6, 12, 16>>), bc |-> RChance(r, 801, 1, 2), dom |-> "w"]
      rank == RPick(r, 802, <<1, 2, 2, 3>>)
      s0 == PLeaves(PStart, r, RRange(r, 803, 1, 3), IF rank > 1 THEN 1 ELSE 0, rank, cf)
      ops == IF RChance(r, 804, 1, 4) THEN DiffSeq \o ActSeq \o ActSeq
             ELSE IF RChance(r, 805, 1, 3) THEN <<"Add", "Mul", "Sub", "Scale", "Tanh", "ElMax", "Sin">>
             ELSE DiffSeq
      n == RRange(r, 806, 1, MaxOps)
      s1 == PRun(s0, r, n, ops, cf)
      root1 == IF RChance(r, 807, 3, 4) THEN PLast(s1) ELSE RPick(r, 808, s1.pool)
      lv == Leaves(s1)
      second == RChance(r, 809, 1, 3)
      s2 == IF second THEN PRun([s1 EXCEPT !.pool = lv], RMix(r, 5), RRange(r, 810, 1, MaxOps \div 2), ops, cf) ELSE s1
      root2 == PLast(s2)
      s3 == PReq(s2, BP(root1))
      s4 == IF second THEN PReq(s3, BP(root2)) ELSE s3
      again == RChance(r, 811, 1, 4)
      s5 == IF again
            THEN LET z == FoldLeft(LAMBDA st, l : PReq(st, Reset(l, TRUE)), s4, lv)
                     y == PRun([z EXCEPT !.pool = lv], RMix(r, 6), RRange(r, 812, 1, 4), ops, cf)
                 IN PReq(y, BP(PLast(y)))
            ELSE s4
  IN s5.rq

(* every small dag over one or two scalar leaves: node m's operation and operands,  *)
(* exhaustively: ops Add, Mul (binary), Tanh, Scale (unary); root = the last node    *)
TinyOps == {"Add", "Mul", "Sub", "Tanh"}
TinyChoices(n) == {<<o, a, b>> \in TinyOps \X (1..n) \X (1..n) :
                     (o = "Tanh" => b = 1) /\ (o \in {"Add", "Mul"} => a <= b)}
TinyReq(q) == IF q[1] = "Tanh" THEN Op("Tanh", <<q[2]>>, Par1) ELSE Op(q[1], <<q[2], q[3]>>, Par1)

(* deep graphs whose levels share their input: the number of paths doubles (or more)  *)
(* per level, the number of links does not                                             *)
DeepPats == << "dbl", "fib", "dia", "cat", "mm", "add3", "skip", "patch", "div", "act", "max", "bcast", "dot", "wide", "red" >>
DeepLevel(st, p) ==      \* st.pool = <<..., previous, current>>
  LET n == st.pool[Len(st.pool)]
      prev == IF Len(st.pool) > 1 THEN st.pool[Len(st.pool) - 1] ELSE n
      s == st.sh[n]
      half == PQ(<<1, 2>>)
      u(x, op, in, par) == POp(x, op, in, par)
      keep(x) == [x EXCEPT !.pool = <<n, PLast(x)>>]
      L(x) == PLast(x)
  IN keep(
     CASE p = "dbl" -> LET a == u(st, "Add", <<n, n>>, Par1) IN u(a, "Scale", <<L(a)>>, half)
       [] p = "fib" -> LET a == u(st, "Add", <<n, prev>>, Par1) IN u(a, "Scale", <<L(a)>>, half)
       [] p = "dia" -> LET a == u(st, "Sin", <<n>>, Par1)  b == u(a, "Cos", <<n>>, Par1) IN u(b, "Sub", <<L(a), L(b)>>, Par1)
       [] p = "cat" -> LET a == u(st, "Concat", <<n, n>>, PD(0)) IN u(a, "Slice", <<L(a)>>, PR(<< <<1, 1 + s[1]>> >>))
       [] p = "mm" -> LET a == u(st, "MatMul", <<n, n>>, Par1)  b == u(a, "Scale", <<L(a)>>, half) IN u(b, "Tanh", <<L(b)>>, Par1)
       [] p = "add3" -> LET a == u(st, "Add", <<n, n>>, Par1)  b == u(a, "Add", <<L(a), n>>, Par1) IN u(b, "Scale", <<L(b)>>, PQ(<<1, 3>>))
       [] p = "skip" -> LET a == u(st, "Add", <<n, 1>>, Par1)  b == u(a, "Scale", <<L(a)>>, half) IN u(b, "Mul", <<L(b), n>>, Par1)
       [] p = "patch" -> LET a == u(st, "Patch", <<n, n>>, PR(<<>>)) IN u(a, "Add", <<L(a), n>>, Par1)
       [] p = "div" -> LET a == u(st, "Cosh", <<n>>, Par1) IN u(a, "Div", <<n, L(a)>>, Par1)
       [] p = "act" -> LET a == u(st, "Sigmoid", <<n>>, Par1)  b == u(a, "TanhAct", <<n>>, Par1)  d == u(b, "LeakyRelu", <<L(b)>>, PQ(<<1, 2>>)) IN u(d, "Mul", <<L(a), L(d)>>, Par1)
       [] p = "max" -> LET a == u(st, "ElMax", <<n, prev>>, Par1)  b == u(a, "ElMin", <<n, prev>>, Par1) IN u(b, "Sub", <<L(a), L(b)>>, Par1)
       [] p = "bcast" -> LET a == u(st, "SumAlong", <<n>>, PD(0))  b == u(a, "Scale", <<L(a)>>, half) IN u(b, "Sub", <<n, L(b)>>, Par1)
       [] p = "dot" -> LET a == u(st, "Dot", <<n, n>>, Par1)  b == u(a, "Tanh", <<L(a)>>, Par1) IN u(b, "Mul", <<n, L(b)>>, Par1)
       [] p = "wide" -> LET a == u(st, "Scale", <<n>>, half)  b == u(a, "Scale", <<n>>, half)  d == u(b, "Scale", <<prev>>, half)
                            e == u(d, "Add", <<L(a), L(b)>>, Par1)  f == u(e, "Sub", <<L(e), L(d)>>, Par1) IN u(f, "Sin", <<L(f)>>, Par1)
       [] p = "red" -> LET a == u(st, "MeanAlong", <<n>>, PD(0))  b == u(a, "UnSqueeze", <<L(a)>>, PD(0)) IN u(b, "Sub", <<n, L(b)>>, Par1))
RECURSIVE DeepRun(_, _, _)
DeepRun(st, p, d) == IF d = 0 THEN st ELSE DeepRun(TLCEval(DeepLevel(st, p)), p, d - 1)
DeepScript(p, d) == LET st == DeepRun(PLeaf(PStart, IF DeepPats[p] \in {"mm", "dot", "bcast", "red"} THEN <<2, 2>> ELSE <<2>>, TRUE, "w"), DeepPats[p], d) IN
                    Append(st.rq, BP(PLast(st)))

(* long chains, wide fan-outs and fan-ins: d operations in a row, one tensor used by d     *)
(* operations, one operation with d operands, d leaves                                       *)
ChainPats == << "chain", "fan", "cat", "leaves", "zip" >>
ChainScript(p, d) ==
  LET s0 == PLeaf(PLeaf(PStart, <<2>>, TRUE, "w"), <<2>>, TRUE, "w")
      L(x) == PLast(x)
      steps == [k \in 1..d |-> k]
      step(st, k) ==
        CASE p = "chain" -> (CASE k % 4 = 0 -> POp(st, "Scale", <<L(st)>>, PQ(<<3, 2>>))
                               [] k % 4 = 1 -> POp(st, "Add", <<L(st), 1>>, Par1)
                               [] k % 4 = 2 -> POp(st, "Scale", <<L(st)>>, PQ(<<2, 3>>))
                               [] OTHER -> POp(st, "Sub", <<2, L(st)>>, Par1))
          [] p = "fan" -> LET a == POp(st, IF k % 2 = 0 THEN "Sin" ELSE "Scale", <<1>>, IF k % 2 = 0 THEN Par1 ELSE PQ(<<k, 7>>)) IN
                          IF k = 1 THEN a ELSE POp(a, "Add", <<L(st), L(a)>>, Par1)
          [] p = "zip" -> LET a == POp(st, IF k % 3 = 0 THEN "Mul" ELSE "Add", <<L(st), 1 + (k % 2)>>, Par1) IN
                          IF k % 3 = 0 THEN POp(a, "Tanh", <<L(a)>>, Par1) ELSE a
          [] OTHER -> st
      run == FoldLeft(LAMBDA st, k : TLCEval(step(st, k)), s0, steps)
      lv == FoldLeft(LAMBDA st, k : PLeaf(st, <<1 + (k % 2)>>, k % 5 # 0, "w"), s0, steps)
      ids == [k \in 1..d |-> 2 + k]
      sum == FoldLeft(LAMBDA st, k : TLCEval(POp(st, "Add", <<L(st), 2 + k>>, Par1)), lv, steps)
      cat == POp(lv, "Concat", ids \o <<1, 2, 1>>, PD(0))
      fin == IF p = "leaves" THEN sum ELSE IF p = "cat" THEN POp(cat, "Mul", <<L(cat), L(cat)>>, Par1) ELSE run
  IN Append(fin.rq, BP(L(fin)))

(* every graph that BackwardWalk explores (contexts 1..NWalk with up to two links each, *)
(* any leaves tracked or not, any root, leaves with or without an earlier gradient),      *)
(* with operations in place of the abstract derivatives                                    *)
LinkSeqs(n) == UNION {[1..k -> 1..(n - 1)] : k \in 0..(IF n = 1 THEN 0 ELSE 2)}
RECURSIVE Graphs(_)
Graphs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, l) : s \in Graphs(n - 1), l \in LinkSeqs(n)}
WalkLeaves(gr) == {n \in 1..Len(gr) : gr[n] = <<>>}
WUn == <<"Tanh", "Sin", "Exp", "Scale", "Cosh">>
WBin == <<"Mul", "Sub", "Add", "Div", "ElMax", "Mul", "Patch", "ElMin">>
WalkScript(gr, lv, root, had) ==
  LET nn == Len(gr)
      mix == FoldLeft(LAMBDA a, n : (31 * a + 7 * Len(gr[n]) + (IF Len(gr[n]) > 0 THEN gr[n][1] ELSE 0) + 5) % 1009, root, [n \in 1..nn |-> n])
      req(n) == IF gr[n] = <<>> THEN Leaf(<<2>>, n \in lv, "w")
                ELSE IF Len(gr[n]) = 1 THEN Op(WUn[1 + ((mix + 3 * n) % 5)], gr[n], Par1)
                ELSE LET o == WBin[1 + ((mix + 5 * n + gr[n][1]) % 8)] IN
                     Op(o, gr[n], IF o = "Patch" THEN PR(<<>>) ELSE Par1)
      hs == SelectSeq([n \in 1..nn |-> n], LAMBDA n : n \in had)
      (* an earlier gradient: of a graph of its own *)
      pre == Flat([i \in 1..Len(hs) |-> <<Op("Sin", <<hs[i]>>, Par1), BP(nn + i)>>])
  IN [n \in 1..nn |-> req(n)] \o pre \o <<BP(root)>>
Init == /\ Init0
        /\ \/ /\ NWalk > 0
              /\ \E gr \in Graphs(NWalk) : \E lv \in SUBSET WalkLeaves(gr) : \E had \in (IF lv = {} THEN {{}} ELSE {{}, lv, {CHOOSE n \in lv : TRUE}}) :
                 \E root \in 1..NWalk :
                    /\ root \notin WalkLeaves(gr) \/ root = NWalk
                    /\ c = [k |-> "walk", gr |-> gr, lv |-> lv, root |-> root, had |-> had]
           \/ \E p \in 1..Len(DeepPats) : \E d \in Depths : c = [k |-> "deep", p |-> p, d |-> d]
           \/ \E p \in 1..Len(ChainPats) : \E d \in Chains : (d < 700 \/ ChainPats[p] = "chain") /\ c = [k |-> "chain", p |-> p, d |-> d]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ /\ NTiny >= 2
              /\ \E q1 \in TinyChoices(1), q2 \in TinyChoices(2) : c = [k |-> "tiny", q |-> <<q1, q2>>]
           \/ /\ NTiny >= 3
              /\ \E q1 \in TinyChoices(1), q2 \in TinyChoices(2), q3 \in TinyChoices(3) : c = [k |-> "tiny", q |-> <<q1, q2, q3>>]
           \/ /\ NTiny >= 4
              /\ \E q1 \in TinyChoices(1), q2 \in TinyChoices(2), q3 \in TinyChoices(3), q4 \in TinyChoices(4) :
                     c = [k |-> "tiny", q |-> <<q1, q2, q3, q4>>]

GenScript(cc) == IF cc.k = "rnd" THEN RndScript(cc.i)
                 ELSE IF cc.k = "walk" THEN WalkScript(cc.gr, cc.lv, cc.root, cc.had)
                 ELSE IF cc.k = "chain" THEN ChainScript(ChainPats[cc.p], cc.d)
                 ELSE IF cc.k = "deep" THEN DeepScript(cc.p, cc.d)
                 ELSE <<Leaf(<<2>>, TRUE, "w")>> \o [j \in 1..Len(cc.q) |-> TinyReq(cc.q[j])] \o <<BP(Len(cc.q) + 1)>>
=============================================================================
