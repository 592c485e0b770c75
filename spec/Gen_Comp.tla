------------------------------ MODULE Gen_Comp -----------------------------
(* Components: losses (C12 values, C13 gradients), activations (C14 values, C15    *)
(* gradients), the FC layer (C16), the optimizer (C17) and whole training loops      *)
(* (C11), as scripts of the heap machine.                                            *)
EXTENDS Prog

CONSTANTS Seed, Group, NRandom, NProg, NAgain, ExFrom, MaxEl, Big

MaxSteps == IF Big THEN 30 ELSE 12
Ops_ == IF Group \in {"C12", "C13"} THEN Losses ELSE IF Group \in {"C14", "C15"} THEN Activations ELSE {"FC"}
OpSeq == SetToSeq(Ops_)

CompArgs(op, big) ==
  LET rk == IF big THEN 4 ELSE 3 IN
  CASE op \in {"Relu", "Sigmoid", "TanhAct"} -> {A(<<s>>, Par1) : s \in Shp(0, rk, D3)}
    [] op = "LeakyRelu" -> {A(<<s>>, PQ(<<1, 5>>)) : s \in Shp(0, rk, D3)} \cup
                           {A(<<<<2, 3>>>>, PQ(Slopes[i])) : i \in 1..Len(Slopes)} \cup
                           {A(<<<<3>>>>, [PQ(<<"0.01">>) EXCEPT !.nilc = TRUE])}
    [] op = "Softmax" -> UNION {{A(<<s>>, PD(d)) : d \in 0..(Len(s) - 1)} : s \in Shp(1, rk, D3) \cup {<<5>>, <<4, 2>>, <<2, 5>>}} \cup
                         {A(<<s>>, [Par1 EXCEPT !.nilc = TRUE]) : s \in Shp(1, 2, D3)}
    [] op \in {"MSE", "BCE"} -> {A(<<<<n>>, <<n>>>>, Par1) : n \in (1..9) \cup {16, 33}}
    [] op = "CE" -> {A(<<s, s>>, Par1) : s \in ((1..4) \X (1..4)) \cup {<<1, 9>>, <<9, 1>>, <<7, 5>>}}
    [] op = "FC" -> {A(<<<<b, f>>, <<o>>, <<o>>>>, Par1) : <<b, f, o>> \in (1..3) \X (1..3) \X (1..3)}
BigComp(op) ==
  CASE op \in {"MSE", "BCE"} -> << A(<<<<64>>, <<64>>>>, Par1), A(<<<<257>>, <<257>>>>, Par1) >>
    [] op = "CE" -> << A(<<<<33, 10>>, <<33, 10>>>>, Par1), A(<<<<2, 130>>, <<2, 130>>>>, Par1), A(<<<<130, 2>>, <<130, 2>>>>, Par1) >>
    [] op = "FC" -> << A(<<<<33, 5>>, <<4>>, <<4>>>>, Par1), A(<<<<3, 65>>, <<2>>, <<2>>>>, Par1), A(<<<<2, 3>>, <<40>>, <<40>>>>, Par1), A(<<<<16, 16>>, <<16>>, <<16>>>>, Par1) >>
    [] op = "Softmax" -> << A(<<<<70, 3>>>>, PD(0)), A(<<<<3, 70>>>>, PD(1)), A(<<<<2, 33, 3>>>>, PD(1)), A(<<<<2, 3, 2, 2, 3>>>>, PD(4)), A(<<<<2, 3, 2, 2, 3>>>>, PD(2)),
                            A(<<<<130>>>>, PD(0)), A(<<<<5, 1, 4>>>>, PD(1)), A(<<<<2, 2, 2, 2, 2, 2>>>>, PD(0)) >>
    [] OTHER -> BigArgs(op)

Hash(a) == (Seed + FoldLeft(LAMBDA x, s : (31 * x + 7 + FoldLeft(LAMBDA y, d : 5 * y + d, 1, s)) % 10007, 1, a.ss) + 11 * a.par.d + 3 * Len(a.par.q))

PredDoms(op, bwd) == IF op = "MSE" THEN <<"p6", "mid", "prob", "p6">> ELSE <<"p6", "prob", "unit", "prob", IF bwd THEN "prob" ELSE "any">>
TargDoms(op) == IF op = "MSE" THEN <<"p6", "mid", "lab", "unit">> ELSE <<"unit", "unit", "p6", "lab", "any">>

(* variants: 1 plain leaves; 2 tracked/untracked variants of the same data; 3 the      *)
(* prediction is the output of earlier tracked operations; 4 two losses on one target   *)
PredOf(st, r, op, s, tr, v) ==      \* adds the prediction of shape s
  IF v # 3 THEN PLeaf(st, s, tr, RPick(r, 21, PredDoms(op, Group = "C13")))
  ELSE CASE RInt(r, 22, 6) = 0 -> LET a == PLeaf(st, s, tr, "any") IN POp(a, "Sigmoid", <<PLast(a)>>, Par1)
         [] RInt(r, 22, 6) = 1 -> LET a == PLeaf(st, s, tr, "w")  b == PLeaf(a, s, RBool(r, 23), "w") IN POp(b, "Add", <<PLast(a), PLast(b)>>, Par1)
         [] RInt(r, 22, 6) = 2 -> LET a == PLeaf(st, s, tr, "w")  b == POp(a, "Softmax", <<PLast(a)>>, PD(Len(s) - 1)) IN b
         [] RInt(r, 22, 6) = 3 -> LET a == PLeaf(st, <<NEl(s)>>, tr, "prob")  b == POp(a, "Reshape", <<PLast(a)>>, PS(s)) IN b
         [] RInt(r, 22, 6) = 4 -> LET a == PLeaf(st, [s EXCEPT ![1] = @ + 1], tr, RPick(r, 21, PredDoms(op, TRUE))) IN
                                  POp(a, "Slice", <<PLast(a)>>, PR(<< <<1, s[1] + 1>> >>))
         [] OTHER -> LET a == PLeaf(st, s, tr, RPick(r, 21, PredDoms(op, TRUE)))  b == POp(a, "Scale", <<PLast(a)>>, PQ(<<1, 1>>)) IN b

LossScript(op, a, r, v0) ==
  LET s == a.ss[1]
      v == IF v0 > 0 THEN v0 ELSE RRange(r, 1, 1, 4)
      bwd == Group = "C13"
      trp == IF bwd THEN RChance(r, 2, 7, 8) ELSE RChance(r, 2, 1, 2)
      p == PredOf(PStart, r, op, s, trp, v)
      t == PLeaf(p, s, RChance(r, 3, 1, IF bwd THEN 4 ELSE 3), RPick(r, 24, TargDoms(op)))
      y == POp(t, op, <<PLast(p), PLast(t)>>, Par1)
      b1 == PReq(y, BoundReq(PLast(y), "0", ""))
  IN IF ~bwd
     THEN (IF v = 2
           THEN LET p2 == POp(b1, "Scale", <<PLast(p)>>, PQ(<<1, 1>>))
                    p3 == PReq(p2, Reset(PLast(p2), ~trp))
                    y2 == POp(p3, op, <<PLast(p2), PLast(t)>>, Par1)
                    t2 == POp(y2, "Scale", <<PLast(t)>>, PQ(<<1, 1>>))
                    t3 == PReq(t2, Reset(PLast(t2), RBool(r, 5)))
                    y3 == POp(t3, op, <<PLast(p2), PLast(t2)>>, Par1)
                IN y3.rq \o << SameReq(PLast(y), PLast(y2)), SameReq(PLast(y), PLast(y3)) >>
           ELSE IF v = 4
           THEN LET p2 == PLeaf(b1, s, RBool(r, 6), RPick(r, 25, PredDoms(op, FALSE)))
                    y2 == POp(p2, op, <<PLast(p2), PLast(t)>>, Par1)
                    y3 == POp(y2, op, <<PLast(p), PLast(t)>>, Par1)
                    y4 == POp(y3, op, <<PLast(t), PLast(t)>>, Par1)
                IN y4.rq \o << BoundReq(PLast(y2), "0", ""), SameReq(PLast(y), PLast(y3)), BoundReq(PLast(y4), "0", "") >>
           ELSE b1.rq)
     ELSE (IF v = 2       \* an upstream weight
           THEN LET g == PLeaf(b1, <<>>, FALSE, "G")  z == POp(g, "Mul", <<PLast(y), PLast(g)>>, Par1) IN Append(z.rq, BP(PLast(z)))
           ELSE IF v = 4  \* the prediction feeds two losses (or the loss and something else)
           THEN LET t2 == PLeaf(b1, s, FALSE, RPick(r, 25, TargDoms(op)))
                    y2 == POp(t2, op, <<PLast(p), PLast(t2)>>, Par1)
                    z == POp(y2, "Add", <<PLast(y), PLast(y2)>>, Par1)
                IN IF RBool(r, 7) THEN Append(z.rq, BP(PLast(z))) ELSE y2.rq \o (IF v0 = 3 THEN <<BP(PLast(y))>> ELSE <<BP(PLast(y)), BP(PLast(y2))>>)
           ELSE Append(b1.rq, BP(PLast(y))))

(* z = y * G, back-propagated *)
BackSt(st, y, os, r) ==
  IF RChance(r, 30, 1, 10) THEN PReq(st, BP(y))
  ELSE LET g == PLeaf(st, os, FALSE, "G")  z == POp(g, "Mul", <<y, PLast(g)>>, Par1) IN PReq(z, BP(PLast(z)))
BackScript(st, y, os, r) == BackSt(st, y, os, r).rq

ActDom(op) == IF op = "Softmax" THEN "e700" ELSE "any"
ActScript(op, a, r, v0) ==
  LET s == a.ss[1]
      v == IF v0 > 0 THEN v0 ELSE RRange(r, 1, 1, 4)
      bwd == Group = "C15"
      tr == IF bwd THEN RChance(r, 2, 9, 10) ELSE RBool(r, 2)
      x0 == PLeaf(PStart, s, tr, IF v = 3 THEN (IF op = "Softmax" THEN "w" ELSE "mid") ELSE ActDom(op))
      x == IF v # 3 THEN x0
           ELSE CASE RInt(r, 8, 5) = 0 -> POp(x0, "Scale", <<1>>, PQ(<<1, 1>>))
                  [] RInt(r, 8, 5) = 1 -> LET b == PLeaf(x0, s, RBool(r, 9), "w") IN POp(b, "Sub", <<1, 2>>, Par1)
                  [] RInt(r, 8, 5) = 2 -> POp(x0, "Reshape", <<1>>, PS(s))
                  [] RInt(r, 8, 5) = 3 -> POp(x0, RPick(r, 10, <<"Relu", "Sigmoid", "TanhAct">>), <<1>>, Par1)
                  [] OTHER -> POp(x0, "Mul", <<1, 1>>, Par1)
      y == POp(x, op, <<PLast(x)>>, a.par)
      y1 == IF op = "Softmax" THEN LET u == PReq(y, BoundReq(PLast(y), "0", "1.00000000001"))
                                       w == POp(u, "SumAlong", <<PLast(y)>>, PD(a.par.d))
                                   IN PReq(w, BoundReq(PLast(w), "0.999999999", "1.000000001"))
            ELSE IF op = "LeakyRelu" THEN y
            ELSE PReq(y, BoundReq(PLast(y), IF op \in {"Relu", "Sigmoid"} THEN "0" ELSE IF op = "TanhAct" THEN "-1" ELSE "",
                                  IF op \in {"Sigmoid", "TanhAct"} THEN "1" ELSE ""))
      os == s
  IN IF ~bwd
     THEN (IF v = 2 THEN (LET x2 == PLeaf(y1, RPick(r, 11, << <<2>>, <<3, 2>>, <<1, 4>>, <<2, 2, 2>> >>), RBool(r, 12), ActDom(op)) IN
                          IF op = "Softmax" /\ Len(x2.sh[PLast(x2)]) <= a.par.d THEN y1.rq
                          ELSE LET y2 == POp(x2, op, <<PLast(x2)>>, a.par)  y3 == POp(y2, op, <<PLast(x)>>, a.par)
                               IN Append(y3.rq, SameReq(PLast(y), PLast(y3))))
           ELSE y1.rq)
     ELSE (IF v = 4 /\ op # "Softmax"
           THEN BackScript(y1, PLast(y), os, r)
           ELSE IF v = 2      \* the activation feeds another one
           THEN LET y2 == POp(y1, RPick(r, 13, <<"TanhAct", "Sigmoid", "Relu">>), <<PLast(y)>>, Par1) IN BackScript(y2, PLast(y2), os, r)
           ELSE BackScript(y1, PLast(y), os, r))

(* ---- the FC layer ------------------------------------------------------------- *)
FCInit(r, k) == RPick(r, k, <<"custom", "custom", "default", "full", "shared", "shared">>)
(* node ids w, b of a layer; slots are numbered in creation order *)
PFC(st, ins, outs, init, dom) ==
  [st EXCEPT !.sh = @ \o <<<<outs>>, <<outs>>>>, !.rq = Append(@, NewFC(ins, outs, init, dom))]
(* the weight of a default layer lies within the Xavier bounds, the default bias is 0 *)
PInitBounds(st, ins, outs, init) ==
  LET w == PLast(st) - 1 IN
  IF init \in {"default", "shared", "full"}
  THEN LET a == PHidden(st, Op("Mul", <<w, w>>, Par1), <<outs>>)
           b == PHidden(a, Op("Scale", <<PLast(a)>>, PQ(<<ins + outs, 1>>)), <<outs>>)
       IN PReq(PReq(b, BoundReq(PLast(b), "0", "6.0000001")), IF init = "default" THEN BoundReq(w + 1, "0", "0") ELSE BoundReq(w + 1, "0.5", "0.5"))
  ELSE st
PFwd(st, s, x, b, o) == PNode(st, FCForward(s, x), <<b, o>>)

FCScript(a, r, v0) ==
  LET b == a.ss[1][1]  f == a.ss[1][2]  o == a.ss[2][1]
      v == IF v0 > 0 THEN v0 ELSE RRange(r, 1, 1, 7)
      xd == IF v = 5 THEN "w" ELSE RPick(r, 2, <<"e150", "mid", "w">>)
      x == PLeaf(PStart, <<b, f>>, RBool(r, 3), xd)
      init == IF v = 1 THEN "custom" ELSE FCInit(r, 4)
      l == PFC(x, f, o, init, IF v = 5 THEN "w" ELSE RPick(r, 5, <<"e150", "w", "mid">>))
      l1 == PInitBounds(l, f, o, init)
      w == PLast(l) - 1
  IN CASE v \in {1, 2} ->     \* forward and gradients; the input may be the output of an earlier operation
            LET x2 == IF v = 2 THEN POp(l1, RPick(r, 6, <<"Scale", "Tanh", "Relu">>), <<1>>, Par1) ELSE l1
                xx == IF v = 2 THEN PLast(x2) ELSE 1
                y == PFwd(x2, 1, xx, b, o)
            IN BackScript(y, PLast(y), <<b, o>>, r)
       [] v = 3 ->            \* parameters replaced through the pointers: the next Forward uses the new ones
            LET y == PFwd(l1, 1, 1, b, o)
                w2 == PLeaf(y, <<o>>, RChance(r, 7, 3, 4), "w")
                b2 == PLeaf(w2, <<o>>, RChance(r, 8, 3, 4), "w")
                both == RInt(r, 9, 3)
                q1 == IF both # 1 THEN PReq(b2, SetReq(1, PLast(w2))) ELSE b2
                q2 == IF both # 0 THEN PReq(q1, SetReq(2, PLast(b2))) ELSE q1
                y2 == PFwd(q2, 1, 1, b, o)
                z == BackScript(y2, PLast(y2), <<b, o>>, r)
            IN z
       [] v = 4 ->            \* two forward passes before one back-propagation; rows alone
            LET x2 == PLeaf(l1, <<RRange(r, 10, 1, 3), f>>, RBool(r, 11), "w")
                b2 == x2.sh[PLast(x2)][1]
                y == PFwd(x2, 1, 1, b, o)
                y2 == PFwd(y, 1, PLast(x2), b2, o)
                c1 == POp(y2, "Concat", <<PLast(y), PLast(y2)>>, PD(0))
                row == RInt(r, 12, b)
                xr == POp(c1, "Slice", <<1>>, PR(<< <<row, row + 1>> >>))
                yr == PFwd(xr, 1, PLast(xr), 1, o)
                ys == POp(yr, "Slice", <<PLast(y)>>, PR(<< <<row, row + 1>> >>))
                z == PReq(ys, SameReq(PLast(yr), PLast(ys)))
            IN BackScript(z, PLast(c1), <<b + b2, o>>, r)
       [] v = 5 ->            \* two layers
            LET o2 == RRange(r, 13, 1, 4)
                y == PFwd(l1, 1, 1, b, o)
                act == POp(y, RPick(r, 14, <<"Relu", "Sigmoid", "TanhAct", "LeakyRelu", "Softmax">>), <<PLast(y)>>, PQ(<<1, 5>>))
                i2 == FCInit(r, 15)
                l2 == PInitBounds(PFC(act, o, o2, i2, "w"), o, o2, i2)
                y2 == PFwd(l2, 3, PLast(act), b, o2)
            IN BackScript(y2, PLast(y2), <<b, o2>>, r)
       [] v = 7 ->            \* several rounds on the same parameter objects, reset in between
            LET y == PFwd(l1, 1, 1, b, o)
                gr == BackSt(y, PLast(y), <<b, o>>, r)
                tw == RChance(r, 16, 3, 4)
                q1 == PReq(PReq(gr, Reset(w, tw)), Reset(w + 1, RChance(r, 17, 3, 4)))
                x2 == IF RBool(r, 18) THEN PLeaf(PReq(q1, Reset(1, RBool(r, 19))), <<RRange(r, 20, 1, 3), f>>, RBool(r, 21), "w") ELSE PReq(q1, Reset(1, RBool(r, 19)))
                xx == IF Len(x2.sh) > Len(q1.sh) THEN PLast(x2) ELSE 1
                y2 == PFwd(x2, 1, xx, x2.sh[xx][1], o)
            IN BackScript(y2, PLast(y2), y2.sh[PLast(y2)], r)
       [] v = 6 ->            \* several layers built from one configuration map
            LET i3 == RRange(r, 16, 1, 12) * 50  o3 == RRange(r, 17, 3, 8)
                l2 == PInitBounds(PFC(l1, i3, o3, "shared", "w"), i3, o3, "shared")
                l3 == PInitBounds(PFC(l2, 1, 2, "shared", "w"), 1, 2, "shared")
                l4 == PInitBounds(PFC(l3, 400, 16, "shared", "w"), 400, 16, "shared")
                y == PFwd(l4, 1, 1, b, o)
            IN BackScript(y, PLast(y), <<b, o>>, r)

(* ---- the optimizer --------------------------------------------------------------- *)
Rates == << <<"0.01">>, <<"0.1">>, <<0, 1>>, <<-1, 2>>, <<1, 1>>, <<"1e-12">>, <<1000, 1>>, <<3, 7>>, <<"1e5">>, <<"1e-300">>, <<"2.5e-3">> >>
SgdScript(i) ==
  LET r == RSeed(Seed, 3 * i + 2)
      cf == [max |-> RPick(r, 800, <<4, 8, 12>>), bc |-> FALSE, dom |-> "w"]
      lr == RPick(r, 801, Rates)
      lr2 == RPick(r, 802, Rates)
      s == RShape(r, 300, 0, 4, RPick(r, 803, <<6, 12, 24>>))
      st0 == PLeaf(PStart, s, TRUE, RPick(r, 804, <<"any", "mid", "w">>))
      st1 == PRun(PLeaf(st0, s, RBool(r, 805), "G"), r, RRange(r, 806, 0, 3), <<"Mul", "Add", "Scale", "Tanh", "Mul", "Slice", "Reshape", "Sub">>, cf)
      m == POp(st1, "Mul", <<1, 2>>, Par1)
      sa == POp(m, "Flatten", <<PLast(m)>>, PD(0))
      sums == POp(IF s = <<>> THEN m ELSE sa, IF s = <<>> THEN "Scale" ELSE "SumAlong", <<IF s = <<>> THEN PLast(m) ELSE PLast(sa)>>, PD(0))
      other == IF st1.sh[PLast(st1)] = <<>> THEN st1 ELSE st1
      root == sums
      b == PReq(PReq(root, SlotReq(1)), SlotReq(2))
      c1 == IF RChance(r, 807, 1, 4) THEN PReq(b, Update(1, lr)) ELSE b            \* no gradient yet
      bp == PReq(c1, BP(PLast(root)))
      bpb == IF RChance(r, 808, 1, 4) THEN PReq(bp, BP(PLast(st1))) ELSE bp           \* a second graph on the leaves
      tk == PHidden(bpb, TakeGrad(1), s)
      u1 == PHidden(tk, IF RChance(r, 809, 1, 4) THEN UpdateDefault(1) ELSE UpdateBy(1, lr, PLast(tk)), s)
      w1 == PLast(u1)
      u2 == PReq(u1, Update(1, lr2))                                                    \* the new tensor has no gradient
      rs == PReq(u2, Reset(w1, TRUE))
      g2 == PLeaf(rs, s, FALSE, "G")
      m2 == POp(g2, "Mul", <<w1, PLast(g2)>>, Par1)
      bp2 == PReq(m2, BP(PLast(m2)))
      tk2 == PHidden(bp2, TakeGrad(w1), s)
      u3 == PHidden(tk2, UpdateBy(1, IF RBool(r, 810) THEN lr ELSE lr2, PLast(tk2)), s)
      nilp == PReq(PReq(u3, SetReq(2, 0)), Update(2, lr))
      v == RInt(r, 811, 3)
  IN IF v = 0 THEN u2.rq ELSE IF v = 1 THEN u3.rq ELSE nilp.rq

(* ---- training loops --------------------------------------------------------------- *)
(* one training step: forward, loss, back-propagation, updates, resets.  lay: layers     *)
(* as <<first slot, ins, outs>>; cur: current parameter tensors by slot                  *)
RECURSIVE TForward(_, _, _, _, _, _)
TForward(st, lay, acts, x, b, j) ==
  IF j > Len(lay) THEN [st |-> st, x |-> x]
  ELSE LET y == PFwd(st, lay[j][1], x, b, lay[j][3])
           z == IF acts[j] = "none" THEN y ELSE POp(y, acts[j], <<PLast(y)>>, IF acts[j] = "Softmax" THEN PD(1) ELSE PQ(<<1, 5>>))
       IN TForward(z, lay, acts, PLast(z), b, j + 1)

(* forward pass and loss of a batch; the loss is the last tensor made *)
TLoss(m, r, st0, x, b) ==
  LET fw == TForward(st0, m.lay, m.acts, x, b, 1)
      o == m.lay[Len(m.lay)][3]
      pr == IF m.loss = "CE" THEN fw.st
            ELSE LET k == RInt(r, 5, 3) IN
                 IF k = 0 /\ o = 1 THEN POp(fw.st, "Squeeze", <<fw.x>>, PD(1))
                 ELSE IF k = 1 THEN POp(fw.st, "Reshape", <<fw.x>>, PS(<<b * o>>))
                 ELSE POp(fw.st, "Flatten", <<fw.x>>, PD(0))
      p == IF m.loss = "CE" THEN fw.x ELSE PLast(pr)
      t == PLeaf(pr, pr.sh[p], FALSE, IF m.loss = "MSE" THEN "w" ELSE "unit")
  IN POp(t, m.loss, <<p, PLast(t)>>, Par1)

(* m: [st, lay, acts, loss, cur, lr, omit, b, x, xt]: x the batch of the previous step (0: none), xt: it is tracked *)
TStep(m, r, n) ==
  LET xtr == RChance(r, 4, 1, 6)
      b == IF RChance(r, 1, 1, 2) THEN m.b ELSE RRange(r, 2, 1, 4)
      f == m.lay[1][2]
      reuse == m.x > 0 /\ b = m.b /\ RChance(r, 3, 2, 3)
      xs == IF reuse THEN (IF m.xt THEN PReq(m.st, Reset(m.x, TRUE)) ELSE m.st) ELSE PLeaf(m.st, <<b, f>>, xtr, "w")
      x == IF reuse THEN m.x ELSE PLast(xs)
      l == TLoss(m, r, xs, x, b)
      style == RInt(r, 14, 8)
      (* an evaluation pass on the same batch: its graph is dropped *)
      ev == IF style = 0 /\ ~(IF reuse THEN m.xt ELSE xtr) THEN TLoss(m, RMix(r, 15), l, x, b)
            ELSE IF style = 1 THEN LET y == PLeaf(l, <<1, f>>, FALSE, "w") IN TForward(y, m.lay, m.acts, PLast(y), 1, 1).st
            ELSE l
      (* gradients of two batches accumulate before the update *)
      x2 == PLeaf(ev, <<2, f>>, FALSE, "w")
      l2 == TLoss(m, RMix(r, 16), x2, PLast(x2), 2)
      bp == IF style = 2 THEN PReq(PReq(l2, BP(PLast(l))), BP(PLast(l2)))
            ELSE IF style = 3 /\ m.loss # "CE"
            THEN (* a penalty on the first weight *)
                 LET q == POp(ev, "Pow", <<m.cur[1]>>, PQ(<<2, 1>>))
                     z == POp(q, "SumAlong", <<PLast(q)>>, PD(0))
                     a == POp(z, "Add", <<PLast(l), PLast(z)>>, Par1)
                 IN PReq(a, BP(PLast(a)))
            ELSE PReq(ev, BP(PLast(l)))
  IN [m EXCEPT !.st = bp, !.x = x, !.xt = IF reuse THEN m.xt ELSE xtr, !.b = b]

TUpdate(m) ==          \* every parameter is updated and reset (omit: not reset)
  FoldLeft(LAMBDA mm, s :
     LET u == PHidden(mm.st, Update(s, mm.lr), mm.st.sh[mm.cur[s]])
         z == IF s \in mm.omit THEN u ELSE PReq(u, Reset(PLast(u), TRUE))
     IN [mm EXCEPT !.st = z, !.cur[s] = PLast(u)],
     m, [s \in 1..Len(m.cur) |-> s])

RECURSIVE TRun(_, _, _)
TRun(m, r, n) ==
  IF n = 0 THEN m
  ELSE TRun(TLCEval(TUpdate(TLCEval(TStep([m EXCEPT !.omit = {}], RMix(r, n), n)))), r, n - 1)

TrainScript(i, steps) ==        \* steps = 0: drawn; otherwise a small model for that many steps
  LET r == RSeed(Seed, 5 * i + 4 + steps)
      long == steps > 0
      loss == RPick(r, 1, <<"MSE", "BCE", "CE", "MSE">>)
      two == ~long /\ RChance(r, 2, 1, 2)
      wide == ~long /\ RChance(r, 18, 1, 45)      \* a wider model and larger batches, for a step or two
      f == IF long THEN RRange(r, 3, 1, 2) ELSE IF wide THEN RRange(r, 3, 4, 20) ELSE RRange(r, 3, 1, 4)
      hid == IF wide THEN RRange(r, 4, 3, 12) ELSE RRange(r, 4, 1, 3)
      out == IF loss = "CE" THEN (IF long THEN 2 ELSE IF wide THEN RRange(r, 5, 2, 9) ELSE RRange(r, 5, 2, 4))
             ELSE IF wide THEN RPick(r, 5, <<1, 3, 5>>) ELSE RPick(r, 5, <<1, 1, 2>>)
      shared == ~two /\ RChance(r, 14, 1, 3)      \* the same layer applied twice
      three == two /\ RChance(r, 15, 1, 3)
      lay == IF three THEN << <<1, f, hid>>, <<3, hid, 2>>, <<5, 2, out>> >>
             ELSE IF two THEN << <<1, f, hid>>, <<3, hid, out>> >>
             ELSE IF shared THEN << <<1, f, out>>, <<1, out, out>> >> ELSE << <<1, f, out>> >>
      last == IF loss = "CE" THEN "Softmax" ELSE IF loss = "BCE" THEN "Sigmoid" ELSE RPick(r, 6, <<"none", "TanhAct", "LeakyRelu", "Relu", "Sigmoid">>)
      acts == [j \in 1..Len(lay) |-> IF j = Len(lay) THEN last ELSE RPick(r, 6 + j, <<"Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax", "none">>)]
      own == IF shared THEN SubSeq(lay, 1, 1) ELSE lay
      s0 == FoldLeft(LAMBDA st, l : PFC(st, l[2], l[3], IF RChance(r, 8, 1, 4) THEN "default" ELSE "custom", "w"), PStart, own)
      m0 == [st |-> s0, lay |-> lay, acts |-> acts, loss |-> loss, cur |-> [s \in 1..(2 * Len(own)) |-> s], xt |-> FALSE,
             lr |-> RPick(r, 9, << <<"0.1">>, <<1, 2>>, <<"0.01">>, <<"0.05">>, <<1, 1>> >>), omit |-> {}, b |-> IF wide THEN RRange(r, 10, 5, 30) ELSE RRange(r, 10, 1, 4), x |-> 0]
      m1 == TRun(m0, r, IF wide THEN RRange(r, 11, 1, 2) ELSE IF steps > 0 THEN steps ELSE IF RChance(r, 17, 1, 10) THEN RRange(r, 11, 5, MaxSteps) ELSE RRange(r, 11, 1, IF two THEN 3 ELSE 4))
      omit == ~long /\ RChance(r, 12, 1, 3)
      (* the resets (of some parameters) are omitted: the next update of those reports an error *)
      bad == RPick(r, 13, << {1}, {2}, {1, 2}, 1..Len(m1.cur) >>)
      m2 == TStep(m1, RMix(r, 77), 0)
      m3 == TUpdate([m2 EXCEPT !.omit = bad])
      m4 == TStep(m3, RMix(r, 78), 0)
  IN IF ~omit THEN m1.st.rq
     ELSE m4.st.rq \o [s \in 1..1 |-> Update(CHOOSE z \in bad : TRUE, m1.lr)]

(* ---- long histories of one component object ----------------------------------------- *)
LongN == IF Big THEN 150 ELSE 40
(* one loss or activation object applied to many inputs of changing shape *)
LongPointwise(i) ==
  LET r == RSeed(Seed, 13 * i + 6)
      op == OpSeq[1 + (i % Len(OpSeq))]
      bwd == Group \in {"C13", "C15"}
      par == IF op = "Softmax" THEN PD(0) ELSE IF op = "LeakyRelu" THEN PQ(<<1, 5>>) ELSE Par1
      shape(q) == IF op = "CE" THEN <<RRange(q, 2, 1, 4), RRange(q, 3, 1, 3)>> ELSE IF op \in Losses THEN <<RRange(q, 2, 1, 7)>>
                  ELSE RShape(q, 10, 1, 3, 8)
      one(st, k) ==
        LET q == RMix(r, k)
            s == shape(q)
            a == PLeaf(st, s, bwd /\ RChance(q, 4, 4, 5), IF op \in Losses THEN RPick(q, 5, PredDoms(op, bwd)) ELSE ActDom(op))
            b == IF op \in Losses THEN PLeaf(a, s, FALSE, RPick(q, 6, TargDoms(op))) ELSE a
            y == POp(b, op, IF op \in Losses THEN <<PLast(a), PLast(b)>> ELSE <<PLast(a)>>, par)
        IN IF bwd /\ RChance(q, 7, 2, 3) THEN BackSt(y, PLast(y), y.sh[PLast(y)], q) ELSE y
  IN FoldLeft(LAMBDA st, k : TLCEval(one(st, k)), PStart, [k \in 1..LongN |-> k]).rq

(* one loss or activation object applied several times to the same few tensors of one  *)
(* shape, with back-propagations and resets in between                                  *)
AgainPointwise(i) ==
  LET r == RSeed(Seed, 23 * i + 12)
      op == OpSeq[1 + (i % Len(OpSeq))]
      loss == op \in Losses
      bwd == Group \in {"C13", "C15"}
      s == IF op = "CE" THEN <<RRange(r, 2, 1, 3), RRange(r, 3, 1, 4)>> ELSE IF loss THEN <<RRange(r, 2, 1, 6)>>
           ELSE RShape(r, 10, 1, 3, 8)
      par == IF op = "Softmax" THEN PD(RInt(r, 4, Len(s))) ELSE IF op = "LeakyRelu" THEN PQ(<<1, 5>>) ELSE Par1
      nx == RRange(r, 5, 1, 2)
      nt == IF loss THEN RRange(r, 6, 1, 2) ELSE 0
      xd == IF loss THEN RPick(r, 7, PredDoms(op, bwd)) ELSE ActDom(op)
      pool == FoldLeft(LAMBDA st, k : PLeaf(st, s, IF k <= nx THEN RChance(r, 20 + k, 5, 6) ELSE RChance(r, 20 + k, 1, 4),
                                            IF k <= nx THEN xd ELSE RPick(r, 8, TargDoms(op))), PStart, [k \in 1..(nx + nt) |-> k])
      one(st, k) ==
        LET q == RMix(r, k)
            x == RRange(q, 1, 1, nx)
            t == IF loss THEN nx + RRange(q, 2, 1, nt) ELSE 0
            (* now and then with one of the tensors replaced by the prediction or target of an earlier round *)
            y == POp(st, op, IF loss THEN (IF RChance(q, 3, 1, 8) THEN <<x, x>> ELSE <<x, t>>) ELSE <<x>>, par)
            b == IF bwd /\ RChance(q, 4, 4, 5)
                 THEN (IF RBool(q, 5) THEN PReq(y, BP(PLast(y))) ELSE BackSt(y, PLast(y), y.sh[PLast(y)], q))
                 ELSE IF RChance(q, 6, 1, 3) THEN POp(y, "Scale", <<PLast(y)>>, PQ(<<-1, 2>>)) ELSE y
            r1 == IF RChance(q, 7, 5, 6) THEN PReq(b, Reset(x, RChance(q, 8, 7, 8))) ELSE b
            r2 == IF loss /\ RChance(q, 9, 1, 2) THEN PReq(r1, Reset(t, RBool(q, 10))) ELSE r1
        IN IF RChance(q, 11, 1, 5) THEN PReq(r2, Reset(PLast(y), RBool(q, 12))) ELSE r2
  IN FoldLeft(LAMBDA st, k : TLCEval(one(st, k)), pool, [k \in 1..RRange(r, 9, 3, 6) |-> k]).rq

(* one layer: forward passes of changing batches, back-propagations, resets, replaced parameters *)
LongFC(i) ==
  LET r == RSeed(Seed, 17 * i + 8)
      f == RRange(r, 1, 1, 3)  o == RRange(r, 2, 1, 3)
      fresh(m, q) ==          \* the parameters become fresh leaves: reset, or replaced through the pointers
        LET both == RBool(q, 8)
            one(mm, s) == IF RChance(q, 9 + s, 1, 3)
                          THEN LET w == PLeaf(mm.st, <<o>>, RChance(q, 11 + s, 4, 5), "w") IN [st |-> PReq(w, SetReq(s, PLast(w))), cur |-> [mm.cur EXCEPT ![s] = PLast(w)]]
                          ELSE [mm EXCEPT !.st = PReq(mm.st, Reset(mm.cur[s], TRUE))]
        IN one(one(m, 1), 2)
      one(m, k) ==
        LET q == RMix(r, k)
            b == RRange(q, 1, 1, 4)
            x == PLeaf(m.st, <<b, f>>, RChance(q, 2, 1, 3), "w")
            y == PFwd(x, 1, PLast(x), b, o)
        IN IF RChance(q, 3, 1, 2) THEN fresh([m EXCEPT !.st = BackSt(y, PLast(y), <<b, o>>, q)], q) ELSE [m EXCEPT !.st = y]
      l == PFC(PStart, f, o, "custom", "w")
  IN FoldLeft(LAMBDA m, k : TLCEval(one(m, k)), [st |-> l, cur |-> <<1, 2>>], [k \in 1..LongN |-> k]).st.rq

(* one optimizer, many updates of one or two weights *)
LongSgd(i) ==
  LET r == RSeed(Seed, 19 * i + 10)
      s == RShape(r, 300, 0, 2, 3)
      lr == RPick(r, 1, << <<"0.01">>, <<"0.1">>, <<-1, 2>>, <<3, 7>>, <<1, 1>> >>)
      one(m, k) ==
        LET q == RMix(r, k)
            j == RRange(q, 1, 1, 2)
            g == PLeaf(m.st, s, FALSE, "G")
            y == POp(g, "Mul", <<m.cur[j], PLast(g)>>, Par1)
            bp == PReq(y, BP(PLast(y)))
            tk == PHidden(bp, TakeGrad(m.cur[j]), s)
            u == PHidden(tk, UpdateBy(j, lr, PLast(tk)), s)
            rs == PReq(u, Reset(PLast(u), TRUE))
            bad == IF RChance(q, 2, 1, 6) THEN PReq(rs, Update(j, lr)) ELSE rs       \* no gradient yet
        IN [st |-> bad, cur |-> [m.cur EXCEPT ![j] = PLast(u)]]
      s0 == PLeaf(PLeaf(PStart, s, TRUE, "w"), s, TRUE, "mid")
  IN FoldLeft(LAMBDA m, k : TLCEval(one(m, k)), [st |-> PReq(PReq(s0, SlotReq(1)), SlotReq(2)), cur |-> <<1, 2>>], [k \in 1..LongN |-> k]).st.rq

(* several weights whose gradients are one object, one weight in several slots, and     *)
(* weights whose gradients are (views of) one another's values                            *)
SharedSgd(i) ==
  LET r == RSeed(Seed, 29 * i + 14)
      s == RShape(r, 300, 0, 3, 6)
      lr == RPick(r, 1, Rates)
      lr2 == IF RBool(r, 2) THEN lr ELSE RPick(r, 3, Rates)
      n == RRange(r, 4, 2, 3)
      ws == FoldLeft(LAMBDA st, k : PLeaf(st, s, TRUE, RPick(r, 10 + k, <<"w", "mid", "any">>)), PStart, [k \in 1..n |-> k])
      sl == FoldLeft(LAMBDA st, k : PReq(st, SlotReq(k)), ws, [k \in 1..n |-> k])
      dup == RChance(r, 5, 1, 3)                      \* slot n + 1 holds weight 1 again
      s2 == IF dup THEN PReq(sl, SlotReq(1)) ELSE sl
      m == n + (IF dup THEN 1 ELSE 0)
      step(st0, cur, q) ==
        LET kind == RInt(q, 1, 4)
            sum == FoldLeft(LAMBDA st, k : IF kind = 3 THEN POp(st, IF RBool(q, 30 + k) THEN "Mul" ELSE "Sub", <<PLast(st), cur[k]>>, Par1)
                                           ELSE POp(st, "Add", <<PLast(st), cur[k]>>, Par1),
                            POp(st0, "Add", <<cur[1], cur[2]>>, Par1), SubSeq(<<3>>, 1, n - 2))
            z == IF kind = 0 THEN PReq(sum, BP(PLast(sum)))
                 ELSE LET g == PLeaf(sum, s, FALSE, "G")  y == POp(g, "Mul", <<PLast(sum), PLast(g)>>, Par1) IN PReq(y, BP(PLast(y)))
            (* the gradients are all taken before the first update *)
            tk == FoldLeft(LAMBDA a, k : LET pq == PHidden(a.st, TakeGrad(cur[k]), s) IN [st |-> pq, gr |-> Append(a.gr, PLast(pq))],
                           [st |-> z, gr |-> <<>>], [k \in 1..n |-> k])
            order == IF RBool(q, 2) THEN [k \in 1..m |-> k] ELSE [k \in 1..m |-> m + 1 - k]
            up == FoldLeft(LAMBDA a, k :
                     LET w == IF k > n THEN 1 ELSE k
                         pq == PHidden(a.st, UpdateBy(k, IF RBool(q, 20 + k) THEN lr ELSE lr2, tk.gr[w]), s)
                     IN [st |-> pq, cur |-> [a.cur EXCEPT ![k] = PLast(pq)]],
                     [st |-> tk.st, cur |-> IF dup THEN Append(cur, cur[1]) ELSE cur], order)
        IN up
      a1 == step(s2, [k \in 1..n |-> k], RMix(r, 1))
      rs == FoldLeft(LAMBDA st, k : PReq(st, Reset(a1.cur[k], TRUE)), a1.st, [k \in 1..m |-> k])
      (* a second step: from the updated tensors (slot 1 and the duplicate are different tensors now) *)
      a2 == IF dup THEN [st |-> PReq(rs, Update(1, lr))] ELSE step(rs, a1.cur, RMix(r, 2))
  IN a2.st.rq

Init == /\ Init0
        /\ \/ \E op \in Ops_ : \E a \in CompArgs(op, Big) : \E v \in 1..(IF op = "FC" THEN 7 ELSE 4) :
                 /\ Group \notin {"C11", "C17"}
                 /\ (ExFrom = 1 \/ (Hash(a) + v) % ExFrom = 0)
                 /\ c = [k |-> "ex", op |-> op, a |-> a, v |-> v]
           \/ \E op \in Ops_ : \E i \in 1..Len(BigComp(op)) :
                 /\ Group \notin {"C11", "C17"}
                 /\ c = [k |-> "big", op |-> op, i |-> i]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ \E i \in 1..NProg : c = [k |-> "long", i |-> i]
           \/ \E i \in 1..NAgain : /\ Group \notin {"C11", "C16"}
                                   /\ c = [k |-> "again", i |-> i]

GenScript(cc) ==
  IF cc.k = "again" THEN (IF Group = "C17" THEN SharedSgd(cc.i) ELSE AgainPointwise(cc.i))
  ELSE IF cc.k = "long" THEN (CASE Group = "C11" -> TrainScript(cc.i, LongN) [] Group = "C16" -> LongFC(cc.i) [] Group = "C17" -> LongSgd(cc.i) [] OTHER -> LongPointwise(cc.i))
  ELSE IF cc.k = "rnd" /\ Group = "C17" THEN SgdScript(cc.i)
  ELSE IF cc.k = "rnd" /\ Group = "C11" THEN TrainScript(cc.i, 0)
  ELSE LET i == IF cc.k = "ex" THEN Hash(cc.a) + cc.v ELSE cc.i
           r == RSeed(Seed, i)
           op == IF cc.k = "rnd" THEN OpSeq[1 + (cc.i % Len(OpSeq))] ELSE cc.op
           a == IF cc.k = "ex" THEN cc.a ELSE IF cc.k = "big" THEN BigComp(op)[cc.i]
                ELSE RArgs(op, r, IF RChance(r, 900, 1, 12) THEN 4 * MaxEl ELSE MaxEl, IF RChance(r, 901, 1, 6) THEN 6 ELSE 4, FALSE)
           v == IF cc.k = "ex" THEN cc.v ELSE 0
       IN IF op \in Losses THEN LossScript(op, a, r, v)
          ELSE IF op \in Activations THEN ActScript(op, a, r, v)
          ELSE FCScript(a, r, v)
=============================================================================
