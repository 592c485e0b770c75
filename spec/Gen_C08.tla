------------------------------- MODULE Gen_C08 -----------------------------
(* Tracking: which tensors are tracked, spent, fresh; who receives a gradient.     *)
(*  hist  nondeterministic histories on scalar tensors, explored exhaustively:       *)
(*        every distinct (abstract state, action) up to Depth actions is replayed,    *)
(*        followed by probes that reveal which tensors are tracked                    *)
(*  full  the same without state abstraction (every history) to a smaller depth       *)
(*  walk  long random histories over all operations                                  *)
(*  tab   every operation on operands of every status                                 *)
(*  twice the same operation on the same operands twice, with resets or passes between *)
EXTENDS Prog

CONSTANTS Seed, Depth, FullDepth, NWalk, WalkLen, NTab, NTwice

(* ---- statuses ---------------------------------------------------------------- *)
(* a chunk of requests that makes a tensor of shape s with the given status; the    *)
(* tensor is the last one made                                                      *)
Statuses == << "U", "T", "TR", "S", "SR", "CS", "G", "CT", "CSp", "XT", "XU", "RU", "RT", "LT", "RR", "UR", "GX" >>
Made(st, s, dom, k) ==
  LET lf(tr) == PLeaf(st, s, tr, dom)
      one(x) == POp(x, "Scale", <<PLast(x)>>, PQ(<<1, 1>>))
      spentLeaf == LET a == lf(TRUE) IN PReq(one(a), BP(PLast(a) + 1))
      leaf == PLast(st) + 1
      fwd(x, n) == POp(x, "Broadcast", <<n>>, PS(s))        \* (never used: keeps the shape)
  IN
  CASE k = "U" -> [st |-> lf(FALSE), n |-> leaf]
    [] k = "T" -> [st |-> lf(TRUE), n |-> leaf]
    [] k = "LT" -> [st |-> PReq(lf(FALSE), Reset(leaf, TRUE)), n |-> leaf]          \* untracked leaf made tracked
    [] k = "RU" -> [st |-> PReq(lf(TRUE), Reset(leaf, FALSE)), n |-> leaf]
    [] k = "TR" -> [st |-> one(lf(TRUE)), n |-> leaf + 1]                            \* tracked result
    [] k = "UR" -> [st |-> one(lf(FALSE)), n |-> leaf + 1]
    [] k = "S" -> [st |-> spentLeaf, n |-> leaf]
    [] k = "SR" -> [st |-> spentLeaf, n |-> leaf + 1]                                \* spent result (the root)
    [] k = "RR" -> [st |-> PReq(spentLeaf, Reset(leaf + 1, TRUE)), n |-> leaf + 1]  \* spent root made a fresh leaf
    [] k = "CS" -> LET a == POp(spentLeaf, "Scale", <<leaf>>, PQ(<<1, 1>>)) IN [st |-> a, n |-> PLast(a)]    \* computed from a spent tensor
    [] k = "RT" -> LET a == POp(spentLeaf, "Scale", <<leaf>>, PQ(<<1, 1>>)) IN [st |-> PReq(a, Reset(PLast(a), TRUE)), n |-> PLast(a)]
    [] k = "G" -> LET a == PNode(spentLeaf, TakeGrad(leaf), s) IN [st |-> a, n |-> PLast(a)]
    [] k = "GX" -> LET a == PNode(spentLeaf, TakeGrad(leaf), s) IN [st |-> PReq(a, Reset(PLast(a), TRUE)), n |-> PLast(a)]
    [] k = "CT" -> LET a == POp(lf(TRUE), "Eq", <<leaf, leaf>>, Par1) IN [st |-> a, n |-> PLast(a)]
    [] k = "CSp" -> LET a == POp(spentLeaf, "Ge", <<leaf, leaf>>, Par1) IN [st |-> a, n |-> PLast(a)]
    [] k = "XT" -> [st |-> PReq(spentLeaf, Reset(leaf, TRUE)), n |-> leaf]
    [] k = "XU" -> [st |-> PReq(spentLeaf, Reset(leaf, FALSE)), n |-> leaf]

TabOps == (UnaryOps \cup CmpOps \cup ElOps \cup ArithOps \cup RedOps \cup
           {"Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Dot", "MatMul"} \cup
           Activations \cup Losses \cup {"FC"})
(* one to four argument samples per operation: sample j of r *)
TabArgs(op, r, bc) ==
  CASE op = "FC" -> A(<<<<2, 2>>, <<3>>, <<3>>>>, Par1)
    [] OTHER -> RArgs(op, r, 12, 3, bc /\ op # "Broadcast")
TabDom(op, par, j) == IF op \in {"MSE", "BCE", "CE"} THEN "prob" ELSE IF DomOf(op, par, j) = "any" THEN "w" ELSE DomOf(op, par, j)

(* would the statement settle op on operands of these statuses? *)
SDirty(k) == k \in {"S", "SR", "CS"}
SAmb(k) == k \in {"G", "CSp"}
STr(k) == k \in {"T", "TR", "LT", "XT", "RT", "RR", "GX"}
SSettled(op, ks) == \/ op \in CmpOps
                    \/ \E j \in 1..Len(ks) : SDirty(ks[j])
                    \/ ~(\E j \in 1..Len(ks) : SAmb(ks[j]))
                    \/ ~(\E j \in 1..Len(ks) : STr(ks[j]))

TabScript(op, ks, i) ==
  LET r == RSeed(Seed, i)
      a0 == TabArgs(op, r, RBool(r, 5))
      n == IF op = "Concat" THEN Len(ks) ELSE Len(a0.ss)
      a == IF op = "Concat" THEN [a0 EXCEPT !.ss = [j \in 1..n |-> [a0.ss[1] EXCEPT ![a0.par.d + 1] = RRange(r, 30 + j, 1, 2)]]] ELSE a0
      same == n = 2 /\ op # "Patch" /\ a.ss[1] = a.ss[2] /\ ks[1] = ks[2] /\ RBool(r, 6)      \* the same object twice
      m == IF same THEN 1 ELSE n
      st == FoldLeft(LAMBDA acc, j : LET q == Made(acc.st, a.ss[j], TabDom(op, a.par, j), ks[((j - 1) % Len(ks)) + 1]) IN [st |-> q.st, ns |-> Append(acc.ns, q.n)],
                     [st |-> PStart, ns |-> <<>>], [j \in 1..m |-> j])
      in == IF same THEN <<st.ns[1], st.ns[1]>> ELSE st.ns
      y == POp(st.st, op, in, a.par)
      yy == PLast(y)
      v == RInt(r, 7, 4)
      z == POp(y, "Scale", <<yy>>, PQ(<<1, 1>>))                 \* chained: is y tracked?
      w == POp(z, "Tanh", <<in[1]>>, Par1)                        \* is the operand still what it was?
      probe2 == <<BP(yy + 2)>>
      (* every operand once more, with a fresh tracked tensor; the operation once more on fresh first / last operand *)
      again(stt) ==
        LET k == RRange(r, 9, 1, n)
            f1 == PLeaf(stt, a.ss[k], TRUE, TabDom(op, a.par, k))
            o1 == POp(f1, op, [in EXCEPT ![k] = PLast(f1)], a.par)
            q1 == PReq(o1, BP(PLast(o1)))
        IN FoldLeft(LAMBDA acc, j :
              LET f == PLeaf(acc, a.ss[j], TRUE, "w")
                  b == POp(f, "Add", IF RBool(r, 50 + j) THEN <<in[j], PLast(f)>> ELSE <<PLast(f), in[j]>>, Par1)
              IN PReq(b, BP(PLast(b))), q1, [j \in 1..n |-> j])
  IN CASE v = 0 -> again(PReq(z, BP(yy + 1))).rq
       [] v = 1 -> again(PReq(y, BP(yy))).rq
       [] v = 2 -> w.rq \o <<BP(yy + 2), BP(yy + 1)>>
       [] OTHER -> z.rq \o <<BP(yy + 1), Reset(in[1], RBool(r, 8)), Reset(yy, TRUE), Op("Scale", <<yy>>, PQ(<<2, 1>>)), BP(yy + 2)>>

(* the same operation with the same arguments on the same operands twice, the first result, *)
(* the operands or both having been reset, or back-propagated, in between                     *)
TwiceScript(op, ks, v, i) ==
  LET r == RSeed(Seed, i + 77)
      a == TabArgs(op, r, FALSE)
      n == Len(a.ss)
      same == n = 2 /\ op # "Patch" /\ a.ss[1] = a.ss[2] /\ ks[1] = ks[2] /\ RBool(r, 6)
      m == IF same THEN 1 ELSE n
      st == FoldLeft(LAMBDA acc, j : LET q == Made(acc.st, a.ss[j], TabDom(op, a.par, j), ks[((j - 1) % Len(ks)) + 1]) IN [st |-> q.st, ns |-> Append(acc.ns, q.n)],
                     [st |-> PStart, ns |-> <<>>], [j \in 1..m |-> j])
      in == IF same THEN <<st.ns[1], st.ns[1]>> ELSE st.ns
      y1 == POp(st.st, op, in, a.par)
      n1 == PLast(y1)
      all(b) == [j \in 1..m |-> Reset(st.ns[j], b)]
      mid == CASE v = 0 -> <<>>
               [] v = 1 -> <<Reset(n1, TRUE)>>
               [] v = 2 -> <<Reset(n1, FALSE)>>
               [] v = 3 -> <<BP(n1)>>
               [] v = 4 -> <<BP(n1)>> \o all(TRUE)
               [] v = 5 -> all(TRUE)
               [] v = 6 -> all(FALSE)
               [] v = 7 -> <<BP(n1)>> \o all(TRUE) \o <<Reset(n1, TRUE)>>
               [] v = 8 -> <<BP(n1), Reset(n1, FALSE)>>
               [] OTHER -> <<BP(n1), Reset(n1, TRUE)>> \o all(FALSE)
      y2 == POp(FoldLeft(LAMBDA x, q : PReq(x, q), y1, mid), op, in, a.par)
      n2 == PLast(y2)
      probe(x, k) == LET b == POp(x, "Scale", <<k>>, PQ(<<2, 1>>)) IN PReq(b, BP(PLast(b)))
  IN (IF RBool(r, 9) THEN probe(probe(y2, n2), n1) ELSE probe(probe(y2, n1), n2)).rq
TwiceStatuses == << "U", "T", "TR", "CS", "S", "UR" >>
TwiceVariants == 10

(* ---- histories ------------------------------------------------------------------ *)
HReqs(hh) ==
  LET M == 1..N(hh) IN
  {Op("Add", <<p[1], p[2]>>, Par1) : p \in {p \in M \X M : p[1] <= p[2]}} \cup
  {Op("Scale", <<n>>, PQ(<<2, 1>>)) : n \in M} \cup
  {Op("Gt", <<p[1], p[2]>>, Par1) : p \in {p \in M \X M : p[1] < p[2]}} \cup
  {BP(n) : n \in M} \cup
  {Reset(n, b) : n \in M, b \in BOOLEAN} \cup
  {TakeGrad(n) : n \in M}

AbsNode(nd) == <<nd.tr, nd.dirty, nd.amb, nd.edges, nd.in, nd.g, nd.gr>>
Abs(hh) == [n \in 1..N(hh) |-> AbsNode(hh.nodes[n])]

(* probes: y = 2n; BackPropagate(y), for every tensor n in the given order *)
Probe(hh, order) ==
  FoldLeft(LAMBDA a, n :
     IF ~OpSettled(a, "Scale", <<n>>) THEN a
     ELSE LET b == DoOp(a, "Scale", <<n>>, PQ(<<2, 1>>)) IN
          IF BPSettled(b, N(b)) THEN DoBackProp(b, N(b)) ELSE b,
     hh, order)
Emit(hh, k) == LET M == N(hh) IN
  PrintT(ToJson([case |-> [k |-> k, at |-> Len(hh.log)],
                 ev |-> Probe(hh, IF Len(hh.log) % 3 = 0 THEN [j \in 1..M |-> M + 1 - j] ELSE [j \in 1..M |-> j]).log]))

(* starting heaps: scalars; two leaves *)
StartHeaps == << << TRUE, FALSE >>, << TRUE, TRUE >>, << FALSE, FALSE >> >>
Start(q) == FoldLeft(LAMBDA a, tr : DoLeaf(a, <<>>, tr, "w", "TensorOf", <<0, 1>>), EmptyHeap, q)

Binary == CmpOps \cup ElOps \cup ArithOps \cup {"Patch", "Concat", "Dot", "MatMul"} \cup Losses \cup {"FC"}
InitH == /\ script = <<>> /\ pc = 0
         /\ \/ /\ Depth > 0
               /\ \E q \in 1..Len(StartHeaps) : c = [k |-> "hist", q |-> q] /\ h = Start(StartHeaps[q])
            \/ /\ FullDepth > 0
               /\ \E q \in 1..Len(StartHeaps) : c = [k |-> "full", q |-> q] /\ h = Start(StartHeaps[q])
            \/ /\ h = EmptyHeap
               /\ \E i \in 1..NWalk : c = [k |-> "walk", i |-> i]
            \/ /\ h = EmptyHeap
               /\ \E op \in TabOps, j \in 1..NTab : \E k1 \in 1..Len(Statuses), k2 \in 1..Len(Statuses) :
                     /\ (op \notin Binary => k1 = k2)
                     /\ LET ks == IF op = "Concat" /\ j > 1
                                  THEN [m \in 1..(2 + ((j + k1) % 4)) |->
                                         Statuses[1 + ((IF m = 1 + ((j + k2) % (2 + ((j + k1) % 4))) THEN k2 ELSE IF j % 2 = 0 THEN k1 ELSE k1 + (m * j * k2)) % Len(Statuses))]]
                                  ELSE <<Statuses[k1], Statuses[k2]>>
                        IN /\ SSettled(op, ks)
                           /\ c = [k |-> "tab", op |-> op, ks |-> ks, i |-> 1000 * j + 31 * k1 + k2]

            \/ /\ h = EmptyHeap
               /\ \E op \in TabOps, j \in 1..NTwice, v \in 1..TwiceVariants : \E k1 \in 1..Len(TwiceStatuses), k2 \in 1..Len(TwiceStatuses) :
                     /\ (op \in Binary => (j + v + k1 + k2) % 3 = 0 \/ NTwice > 2)
                     /\ (op \notin Binary => k1 = k2)
                     /\ c = [k |-> "twice", op |-> op, ks |-> <<TwiceStatuses[k1], TwiceStatuses[k2]>>, v |-> v - 1, i |-> 1000 * j + 100 * v + 31 * k1 + k2]

HistStep == /\ c.k = "hist" /\ pc < Depth
            /\ \E q \in HReqs(h) :
                 /\ Enabled(h, q)
                 /\ \E h2 \in {Exec(h, q)} : h' = h2 /\ Emit(h2, c.k)
            /\ pc' = pc + 1
            /\ UNCHANGED <<c, script>>
FullStep == /\ c.k = "full" /\ pc < FullDepth
            /\ \E q \in HReqs(h) :
                 /\ Enabled(h, q)
                 /\ \E h2 \in {Exec(h, q)} : h' = h2 /\ (pc + 1 = FullDepth => Emit(h2, c.k))
            /\ pc' = pc + 1
            /\ UNCHANGED <<c, script>>

(* a random request for heap hh *)
WalkOps == << "Add", "Mul", "Sub", "Scale", "Tanh", "Sin", "Cos", "ElMax", "ElMin", "Pow", "Div", "Eq", "Ne", "Gt", "Ge", "Lt", "Le",
              "SumAlong", "MeanAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten",
              "Slice", "Patch", "Concat", "Dot", "MatMul", "Broadcast", "Relu", "Sigmoid", "TanhAct", "LeakyRelu", "Softmax", "Exp", "Log", "Sinh", "Cosh" >>
WalkReq(hh, r) ==
  LET M == N(hh)
      n == IF RBool(r, 1) THEN RRange(r, 2, 1, M) ELSE M - RInt(r, 3, IF M < 4 THEN M ELSE 4)
      s == hh.nodes[n].sh
      k == RInt(r, 4, 21)
      spentLeaves == SelectSeq([j \in 1..M |-> j], LAMBDA j : hh.nodes[j].g # <<>>)
      ops == LET st == [sh |-> [j \in 1..M |-> hh.nodes[j].sh], rq |-> <<>>, pool |-> [j \in 1..M |-> j]]
             IN PApply([st EXCEPT !.pool = [j \in 1..(IF M < 6 THEN M ELSE 6) |-> IF RBool(r, 40 + j) THEN j ELSE M - j + 1]],
                       r, RPick(r, 5, WalkOps), [max |-> 12, bc |-> RBool(r, 6), dom |-> "w"]).rq
  IN CASE k \in 0..1 -> <<Leaf(RShape(r, 100, 0, 3, 8), RBool(r, 7), "w")>>
       [] k \in 2..11 -> ops
       [] k \in 12..14 -> <<BP(n)>>
       [] k \in 15..17 -> <<Reset(IF spentLeaves # <<>> /\ RChance(r, 8, 3, 4) THEN RPick(r, 9, spentLeaves) ELSE n, RChance(r, 10, 3, 4))>>
       [] k = 20 -> <<Mutate>>
       [] k = 18 -> <<TakeGrad(IF spentLeaves # <<>> THEN RPick(r, 9, spentLeaves) ELSE n)>>
       [] OTHER -> <<Op("Add", <<n, n>>, Par1)>>

(* requests after a refused one in the same batch would name wrong tensors: stop there *)
RECURSIVE RunBatch(_, _)
RunBatch(hh, rq) == IF rq = <<>> \/ ~Enabled(hh, Head(rq)) THEN hh ELSE RunBatch(TLCEval(Exec(hh, Head(rq))), Tail(rq))

WalkStep == /\ c.k = "walk" /\ pc >= 0 /\ pc < WalkLen
            /\ \E r \in {RMix(RSeed(Seed, 17 * c.i + 5), pc + 1)} :
               \E h2 \in {IF N(h) < 2 THEN Exec(h, Leaf(RShape(r, 100, 0, 2, 6), pc = 0 \/ RBool(r, 1), "w"))
                                      ELSE RunBatch(h, WalkReq(h, r))} : h' = h2
            /\ pc' = pc + 1
            /\ UNCHANGED <<c, script>>
WalkEnd == /\ c.k = "walk" /\ pc = WalkLen
           /\ LET M == N(h) IN
              PrintT(ToJson([case |-> c, ev |-> Probe(h, [j \in 1..M |-> IF c.i % 2 = 0 THEN j ELSE M + 1 - j]).log]))
           /\ pc' = -1 /\ h' = EmptyHeap
           /\ UNCHANGED <<c, script>>

GenScript(cc) == IF cc.k = "twice" THEN TwiceScript(cc.op, cc.ks, cc.v, cc.i) ELSE TabScript(cc.op, cc.ks, cc.i)

NextH == IF c.k \in {"tab", "twice"} THEN Next ELSE HistStep \/ FullStep \/ WalkStep \/ WalkEnd

ViewH == IF c.k = "hist" THEN <<c, Abs(h), <<>>>>
         ELSE IF c.k = "full" THEN <<c, pc, h.log>>
         ELSE <<c, pc, <<>>>>

(* ---- what the statement says, as invariants of the specification ------------------ *)
InvH == HeapOK(h)
(* transitions: who may gain or lose a gradient, become spent or fresh *)
TrackStep ==
  [][ (c.k \notin {"tab", "twice", "walk"}) =>
      LET e == h'.log[Len(h'.log)] IN
      /\ \A n \in 1..N(h) : h'.nodes[n].sh = h.nodes[n].sh
      /\ (e.t \notin {"bp", "reset"}) => \A n \in 1..N(h) : h'.nodes[n] = h.nodes[n]
      /\ e.t = "bp" =>
           LET S == Reach(h, e.root) IN
           /\ S # {} <=> h.nodes[e.root].tr
           /\ \A n \in 1..N(h) : /\ (n \in S => h'.nodes[n].g # <<>> /\ h'.nodes[n].dirty)
                                 /\ (n \notin S => h'.nodes[n] = h.nodes[n])
                                 /\ h'.nodes[n].tr = h.nodes[n].tr
      /\ e.t = "reset" =>
           /\ h'.nodes[e.n].tr = e.tr /\ ~h'.nodes[e.n].dirty /\ h'.nodes[e.n].g = <<>> /\ ~h'.nodes[e.n].edges
           /\ \A n \in 1..N(h) : n # e.n => h'.nodes[n] = h.nodes[n]
      /\ e.t = "op" =>
           LET nd == h'.nodes[N(h')] IN
           /\ nd.tr <=> ((\E j \in 1..Len(e.in) : h.nodes[e.in[j]].tr) /\ ~(\E j \in 1..Len(e.in) : h.nodes[e.in[j]].dirty) /\ e.op \notin CmpOps)
           /\ nd.g = <<>>
    ]_<<h>>
=============================================================================
