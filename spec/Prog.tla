-------------------------------- MODULE Prog -------------------------------
(* Random programs: straight-line sequences of operations over a pool of tensors, *)
(* as scripts.  A generator state st is                                            *)
(*   sh    shapes of all tensors so far (index = id)                               *)
(*   rq    the requests so far                                                     *)
(*   pool  ids the following operations may use                                    *)
(* Steps are functions of (st, r), r a random stream.                              *)
EXTENDS Script, Enum

PStart == [sh |-> <<>>, rq |-> <<>>, pool |-> <<>>]

PNode(st, req, sh) == [sh |-> Append(st.sh, sh), rq |-> Append(st.rq, req), pool |-> Append(st.pool, Len(st.sh) + 1)]
PHidden(st, req, sh) == [st EXCEPT !.sh = Append(@, sh), !.rq = Append(@, req)]   \* not added to the pool
PReq(st, req) == [st EXCEPT !.rq = Append(@, req)]
PLeaf(st, sh, tr, dom) == PNode(st, Leaf(sh, tr, dom), sh)
PLast(st) == Len(st.sh)
POp(st, op, in, par) ==
  PNode(st, Op(op, in, par), ResultShape(op, [k \in 1..Len(in) |-> st.sh[in[k]]], par))

(* a leaf as the constructors make them: what follows may not depend on how a tensor was made *)
PMade(st, r, sh, tr, dom) ==
  LET k == RInt(r, 1, 40)
      via == CASE k < 2 -> "Full" [] k = 2 -> "Zeros" [] k = 3 -> "Ones"
               [] k \in 4..20 /\ Len(sh) = 2 /\ sh[1] = sh[Len(sh)] /\ sh[1] > 1 -> "Eye" [] OTHER -> "TensorOf"
  IN IF via = "TensorOf" THEN PLeaf(st, sh, tr, dom)
     ELSE PNode(st, LeafVia(sh, tr, via, RPick(r, 2, << <<3, 1>>, <<-1, 2>>, <<5, 4>>, <<-2, 1>> >>)), sh)
(* a member of the pool: the newest with probability 2/5 *)
PPick(st, r, k) == IF RChance(r, k, 2, 5) THEN st.pool[Len(st.pool)] ELSE RPick(r, k + 1, st.pool)
(* state extended, if need be, with an operand of shape t; its id is .pick *)
PWith(st, r, k, t, tr, dom) ==
  LET cand == SelectSeq(st.pool, LAMBDA b : st.sh[b] = t) IN
  IF cand # <<>> /\ RChance(r, k, 3, 4)
  THEN [st |-> st, pick |-> RPick(r, k + 1, cand)]
  ELSE LET s2 == PMade(st, RMix(r, 791), t, tr, dom) IN [st |-> s2, pick |-> PLast(s2)]

(* one operation named op on the pool; cf: [max |-> elements, bc |-> implicit expansion wanted, dom |-> leaf domain] *)
PApply(st, r, op, cf) ==
  LET a == PPick(st, r, 1)
      s == st.sh[a]
      tr2 == RChance(r, 3, 2, 3)
      fall == POp(st, "Scale", <<a>>, PQ(RPick(r, 4, << <<2,1>>, <<-1,1>>, <<1,2>> >>)))
      one(o, par) == POp(st, o, <<a>>, par)
      two(o, t, par) == LET w == PWith(st, r, 5, t, tr2, cf.dom) IN
                        IF RBool(r, 7) THEN POp(w.st, o, <<a, w.pick>>, par) ELSE POp(w.st, o, <<w.pick, a>>, par)
  IN
  CASE op = "Scale" -> fall
    [] op = "Pow" -> one("Pow", PQ(RPick(r, 4, << <<2,1>>, <<3,1>>, <<1,1>>, <<0,1>> >>)))
    [] op = "Log" -> LET s2 == one("Cosh", Par1) IN POp(s2, "Log", <<PLast(s2)>>, Par1)
    [] op = "Exp" -> LET s2 == one("Sin", Par1) IN POp(s2, "Exp", <<PLast(s2)>>, Par1)
    [] op = "Tan" -> LET s2 == one("Tanh", Par1) IN POp(s2, "Tan", <<PLast(s2)>>, Par1)
    [] op \in {"Sinh", "Cosh"} -> LET s2 == one("Tanh", Par1) IN POp(s2, op, <<PLast(s2)>>, Par1)
    [] op \in {"Sin", "Cos", "Tanh", "Relu", "Sigmoid", "TanhAct"} -> one(op, Par1)
    [] op = "LeakyRelu" -> one(op, PQ(RPick(r, 4, Slopes)))
    [] op = "Softmax" -> IF s = <<>> THEN fall ELSE one(op, PD(RInt(r, 4, Len(s))))
    [] op \in ElOps \cup CmpOps -> two(op, s, Par1)
    [] op \in ArithOps \ {"Div"} ->
         IF ~cf.bc THEN two(op, s, Par1)
         ELSE LET cand == SelectSeq(st.pool, LAMBDA b : BroadcastCompatible(st.sh[b], s) /\ NEl(BroadcastShape(st.sh[b], s)) <= cf.max) IN
              IF cand = <<>> \/ RBool(r, 8) THEN two(op, RShrunk(r, 30, s, 2), Par1)
              ELSE LET b == RPick(r, 9, cand) IN POp(st, op, IF RBool(r, 7) THEN <<a, b>> ELSE <<b, a>>, Par1)
    [] op = "Div" -> LET w == PWith(st, r, 5, IF cf.bc THEN RShrunk(r, 30, s, 2) ELSE s, tr2, cf.dom)
                         s2 == POp(w.st, "Cosh", <<w.pick>>, Par1) IN
                     POp(s2, "Div", <<a, PLast(s2)>>, Par1)
    [] op \in RedOps -> IF s = <<>> THEN fall ELSE one(op, PD(RInt(r, 4, Len(s))))
    [] op = "Slice" -> one(op, PR([j \in 1..RInt(r, 4, Len(s) + 1) |-> RRangeOf(r, 40 + 5 * j, s[j])]))
    [] op = "Patch" ->
         LET src == [j \in 1..Len(s) |-> RRange(r, 40 + j, 1, s[j])]
             rs == [j \in 1..RInt(r, 4, Len(s) + 1) |-> IF RChance(r, 50 + j, 1, 3) THEN <<0, 0>>
                        ELSE LET f == RRange(r, 60 + j, 0, s[j] - src[j]) IN <<f, f + src[j]>>]
             w == PWith(st, r, 5, src, tr2, cf.dom)
         IN POp(w.st, op, <<a, w.pick>>, PR(rs))
    [] op = "Concat" ->
         IF s = <<>> \/ 2 * NEl(s) > cf.max THEN fall
         ELSE LET d == RInt(r, 4, Len(s))
                  w == PWith(st, r, 5, [s EXCEPT ![d + 1] = IF RBool(r, 11) THEN @ ELSE RRange(r, 10, 1, 2)], tr2, cf.dom)
                  in == IF RBool(r, 7) THEN <<a, w.pick>> ELSE <<w.pick, a>>
              IN POp(w.st, op, IF RChance(r, 8, 1, 4) /\ 3 * NEl(s) <= cf.max THEN in \o <<a>> ELSE in, PD(d))
    [] op = "Transpose" -> IF Len(s) < 2 THEN fall ELSE one(op, Par1)
    [] op = "Reshape" -> one(op, PS(RRegroup(r, 40, s)))
    [] op = "UnSqueeze" -> IF Len(s) > 4 THEN fall ELSE one(op, PD(RInt(r, 4, Len(s) + 1)))
    [] op = "Squeeze" -> LET ds == SelectSeq([j \in 1..Len(s) |-> j], LAMBDA j : s[j] = 1) IN
                         IF ds = <<>> THEN fall ELSE one(op, PD(RPick(r, 4, ds) - 1))
    [] op = "Flatten" -> IF s = <<>> THEN fall ELSE one(op, PD(RInt(r, 4, Len(s))))
    [] op = "Broadcast" -> one(op, PS(s))
    [] op = "Dot" -> IF s = <<>> THEN fall
                     ELSE LET n == Len(s) IN
                          two(op, IF cf.bc THEN RShrunk(r, 30, SubSeq(s, 1, n - 1), 2) \o <<s[n]>> ELSE s, Par1)
    [] op = "MatMul" ->
         IF Len(s) < 2 THEN fall
         ELSE LET n == Len(s)  k == RRange(r, 4, 1, 3)
                  bs == IF cf.bc THEN RShrunk(r, 30, SubSeq(s, 1, n - 2), 2) ELSE SubSeq(s, 1, n - 2)
              IN IF RBool(r, 8)
                 THEN LET w == PWith(st, r, 5, bs \o <<s[n], k>>, tr2, cf.dom) IN POp(w.st, op, <<a, w.pick>>, Par1)
                 ELSE LET w == PWith(st, r, 5, bs \o <<k, s[n - 1]>>, tr2, cf.dom) IN POp(w.st, op, <<w.pick, a>>, Par1)

(* a program of n operations drawn from ops *)
RECURSIVE PRun(_, _, _, _, _)
PRun(st, r, n, ops, cf) ==
  IF n = 0 THEN st
  ELSE LET r2 == RMix(r, 1000 + n)
           s1 == TLCEval(PApply(st, r2, RPick(r2, 0, ops), cf))
           s2 == IF NEl(s1.sh[PLast(s1)]) > 2 * cf.max THEN TLCEval(PApply(st, r2, "Scale", cf)) ELSE s1
       IN PRun(s2, r, n - 1, ops, cf)

(* a starting pool of n leaves, the first one tracked *)
RECURSIVE PLeaves(_, _, _, _, _, _)
PLeaves(st, r, n, lo, hi, cf) ==
  IF n = 0 THEN st
  ELSE LET sh0 == IF st.sh # <<>> /\ RChance(r, 700 + n, 1, 2) THEN st.sh[Len(st.sh)] ELSE RShape(r, 710 + 40 * n, lo, hi, cf.max)
           sh1 == IF Len(sh0) = 2 /\ RChance(r, 730 + n, 1, 5) THEN <<sh0[1], sh0[1]>> ELSE sh0
           sh == IF NEl(sh1) > cf.max THEN sh0 ELSE sh1
       IN PLeaves(PMade(st, RMix(r, 790 + n), sh, st.sh = <<>> \/ RChance(r, 720 + n, 2, 3), cf.dom), r, n - 1, lo, hi, cf)
=============================================================================
