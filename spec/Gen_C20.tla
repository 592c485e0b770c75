------------------------------ MODULE Gen_C20 ------------------------------
(* Concurrent programs: a set-up that makes the shared tensors, then goroutines, each a  *)
(* straight-line program over the shared tensors and its own.                            *)
(*   "fwd"  forward computations over shared tracked and untracked tensors, spent          *)
(*          tensors, layers, activations, losses; no back-propagation                     *)
(*   "bp"   every goroutine builds and back-propagates its own graphs (and trains its own   *)
(*          parameters); only untracked tensors are shared                                 *)
(*   "mix"  goroutines of both kinds                                                      *)
(* A goroutine's program is written in local ids (set-up tensors first, then its own);      *)
(* an interleaving is an order of the goroutines' requests, and fixes the global ids.        *)
(* Confluent: whatever the interleaving, every goroutine's tensors are those of running      *)
(* the set-up and that goroutine alone, and the shared tensors stay as the set-up left them. *)
EXTENDS Prog

CONSTANTS Seed, NRandom, NTiny,
          Leak      \* TRUE: back-propagating goroutines may use shared tracked tensors (refuted: Confluent fails)

FwdSeq == << "Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Add", "Sub", "Mul", "Div",
             "Add", "Mul", "ElMax", "ElMin", "Eq", "Ne", "Gt", "Ge", "Lt", "Le",
             "SumAlong", "MaxAlong", "MinAlong", "AvgAlong", "VarAlong", "StdAlong", "MeanAlong",
             "Slice", "Patch", "Concat", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Dot", "MatMul", "MatMul",
             "Slice", "Concat", "Patch", "Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax", "Softmax" >>
BpSeq == SelectSeq(FwdSeq, LAMBDA o : o \notin CmpOps)
TinySeq == << "Add", "Mul", "Tanh", "Scale", "Sub", "Slice", "SumAlong", "Concat" >>

(* which tensors of a set-up are tracked (before any back-propagation)                     *)
TrackMap(rq) ==
  FoldLeft(LAMBDA m, q :
     CASE q.t = "leaf" -> Append(m, q.tr)
       [] q.t = "op" -> Append(m, q.op \notin CmpOps /\ \E j \in 1..Len(q.in) : m[q.in[j]])
       [] q.t = "fcnew" -> m \o <<TRUE, TRUE>>
       [] q.t = "fcfwd" -> Append(m, TRUE)
       [] OTHER -> m, <<>>, rq)

(* ---- set-up ------------------------------------------------------------------------- *)
(* su: [st, tr: shared tracked ids in pool, slot: a shared FC layer owns slots 1, 2 (ins, outs) or 0] *)
Setup(r, mode, tiny) ==
  LET cf == [max |-> IF tiny THEN 4 ELSE RPick(r, 800, <<6, 16, 40>>), bc |-> RBool(r, 801), dom |-> "w"]
      leaf(st, k) == PLeaf(st, IF st.sh # <<>> /\ RBool(r, 10 * k) THEN st.sh[Len(st.sh)] ELSE RShape(r, 10 * k + 1, IF tiny THEN 1 ELSE 0, 3, cf.max),
                           (Leak \/ mode # "bp") /\ (k = 1 \/ RBool(r, 10 * k + 9)), "w")
      s0 == FoldLeft(leaf, PStart, [k \in 1..RRange(r, 2, 1, IF tiny THEN 2 ELSE 4) |-> k])
      (* an untracked leaf, so that there is something every goroutine may use *)
      s1 == PLeaf(s0, s0.sh[1], FALSE, "w")
      s2 == IF tiny THEN s1 ELSE PRun(s1, RMix(r, 3), RRange(r, 4, 0, 4), BpSeq, [cf EXCEPT !.max = 2 * cf.max])
      s3 == s2
      (* graphs already spent *)
      s4 == IF mode = "fwd" /\ RChance(r, 5, 1, 4) THEN PReq(s3, BP(PLast(s3))) ELSE s3
      f == RRange(r, 6, 1, 3)  o == RRange(r, 7, 1, 3)
      fc == mode # "bp" /\ ~tiny /\ RBool(r, 8)
      x == IF fc THEN PLeaf(s4, <<RRange(r, 9, 1, 3), f>>, RBool(r, 12), "w") ELSE s4
      n == PLast(x)
      l == IF fc THEN [sh |-> x.sh \o << <<o>>, <<o>> >>, rq |-> Append(x.rq, NewFC(f, o, RPick(r, 13, <<"custom", "default">>), "w")),
                       pool |-> x.pool \o <<n + 1, n + 2>>] ELSE x
  IN [st |-> l, cf |-> cf, fc |-> IF fc THEN [x |-> PLast(x), b |-> x.sh[PLast(x)][1], o |-> o] ELSE [x |-> 0, b |-> 0, o |-> 0]]

(* (PRun may make tracked leaves; in a "bp" set-up everything is untracked) *)
Untrack(rq) == [j \in 1..Len(rq) |-> IF rq[j].t = "leaf" THEN [rq[j] EXCEPT !.tr = FALSE] ELSE rq[j]]

(* ---- one goroutine --------------------------------------------------------------------- *)
LossOn(st, r, n) ==      \* a loss of tensor n
  LET k == RInt(r, 1, 3)
      p == IF k = 0 /\ Len(st.sh[n]) = 2 THEN st ELSE IF st.sh[n] = <<>> THEN POp(st, "UnSqueeze", <<n>>, PD(0)) ELSE POp(st, "Flatten", <<n>>, PD(0))
      m == IF k = 0 /\ Len(st.sh[n]) = 2 THEN n ELSE PLast(p)
      op == IF k = 0 /\ Len(st.sh[n]) = 2 THEN "CE" ELSE IF k = 1 THEN "BCE" ELSE "MSE"
      t == PLeaf(p, p.sh[m], FALSE, "unit")
  IN POp(t, op, <<m, PLast(t)>>, Par1)

RECURSIVE FwdSteps(_, _, _, _)
FwdSteps(su, st, r, n) ==
  IF n = 0 THEN st
  ELSE LET q == RMix(r, n)
           a == RPick(q, 1, st.pool)
           s == st.sh[a]
           k == RInt(q, 2, 12)
           nx == CASE k \in 0..6 -> PApply(st, q, RPick(q, 0, FwdSeq), su.cf)
                   [] k = 7 -> PReq(st, Scalar(RPick(q, 3, <<"Sum", "Max", "Min", "Avg", "Var", "Std", "Mean">>), a))
                   [] k = 8 -> PReq(st, At(a, [j \in 1..Len(s) |-> RInt(q, 10 + j, s[j])]))
                   [] k = 9 -> LossOn(st, q, a)
                   [] k = 10 -> LET c2 == SelectSeq(st.pool, LAMBDA b : st.sh[b] = s) IN PReq(st, EqualsReq(a, RPick(q, 4, c2)))
                   [] k = 11 -> IF su.fc.x > 0 THEN PNode(st, FCForward(1, su.fc.x), <<su.fc.b, su.fc.o>>)
                                ELSE PApply(st, q, "Softmax", su.cf)
       IN FwdSteps(su, TLCEval(IF NEl(nx.sh[PLast(nx)]) > 2 * su.cf.max THEN st ELSE nx), r, n - 1)

BpProg(su, st, r, own, tiny) ==
  LET w0 == PLeaf(st, st.sh[RPick(r, 1, st.pool)], TRUE, "w")       \* the goroutine's own parameter
      w == PLast(w0)
      s1 == PRun(w0, RMix(r, 2), IF tiny THEN 2 ELSE RRange(r, 3, 2, 8), IF tiny THEN TinySeq ELSE BpSeq, su.cf)
      s2 == IF ~tiny /\ RBool(r, 4) THEN LossOn(s1, RMix(r, 5), PLast(s1)) ELSE s1
      b == PReq(s2, BP(PLast(s2)))
      train == ~tiny /\ RBool(r, 6)
  IN IF ~train THEN b
     ELSE LET m == POp(s2, "Mul", <<w, w>>, Par1)          \* w surely takes part
              b2 == PReq(PReq(m, SlotReq(w)), BP(PLast(m)))
              u == PHidden(b2, Update(own, <<"0.1">>), st.sh[w0.pool[1]])
              v == [u EXCEPT !.sh[PLast(u)] = u.sh[w]]
              z == PReq(v, Reset(PLast(v), TRUE))
              y == PRun([z EXCEPT !.pool = st.pool \o <<PLast(v)>>], RMix(r, 7), RRange(r, 8, 1, 4), BpSeq, su.cf)
          IN PReq(y, BP(PLast(y)))

UntrackedPool(st) == LET m == TLCEval(TrackMap(st.rq)) IN SelectSeq(st.pool, LAMBDA n : ~m[n])
NSlots(rq) == FoldLeft(LAMBDA a, q : a + (IF q.t = "fcnew" THEN 2 ELSE IF q.t = "slot" THEN 1 ELSE 0), 0, rq)
ThreadProg(su, r, mode, t, tiny) ==
  LET st == su.st
      bp == mode = "bp" \/ (mode = "mix" /\ t % 2 = 0)
      n == Len(st.rq)
      p == IF bp THEN BpProg(su, [st EXCEPT !.pool = IF Leak THEN @ ELSE UntrackedPool(st)], r, NSlots(st.rq) + 1, tiny)
           ELSE IF tiny THEN PRun(st, r, 3, TinySeq, su.cf)
           ELSE FwdSteps(su, st, r, RRange(r, 9, 3, 10))
  IN SubSeq(p.rq, n + 1, Len(p.rq))

(* ---- interleaving ------------------------------------------------------------------------ *)
NewNodes(q) == IF q.t \in {"leaf", "op", "fcfwd", "grad", "upd"} THEN 1 ELSE IF q.t = "fcnew" THEN 2 ELSE 0
Remap(q, f(_), fs(_)) ==
  CASE q.t = "op" -> [q EXCEPT !.in = [j \in 1..Len(@) |-> f(@[j])]]
    [] q.t \in {"bp", "reset", "grad", "scalar", "at", "slot"} -> [q EXCEPT !.n = f(@)]
    [] q.t \in {"equals", "same"} -> [q EXCEPT !.n = f(@), !.m = f(@)]
    [] q.t = "fcfwd" -> [q EXCEPT !.x = f(@), !.s = fs(@)]
    [] q.t = "upd" -> [q EXCEPT !.s = fs(@)]
    [] OTHER -> q

(* n0, k0: tensors and slots of the set-up; order: sequence of goroutine numbers *)
Weave(setup, progs, order, n0, k0) ==
  LET w0 == [out |-> Append(setup, Thread(0)), next |-> n0, snext |-> k0, last |-> 0,
             pos |-> [t \in 1..Len(progs) |-> 1], ids |-> [t \in 1..Len(progs) |-> <<>>], sl |-> [t \in 1..Len(progs) |-> <<>>]]
      step(w, t) ==
        LET q == progs[t][w.pos[t]]
            f(n) == IF n <= n0 THEN n ELSE w.ids[t][n - n0]
            fs(k) == IF k <= k0 THEN k ELSE w.sl[t][k - k0]
            nn == NewNodes(q)
            ns == IF q.t = "fcnew" THEN 2 ELSE IF q.t = "slot" THEN 1 ELSE 0
        IN [w EXCEPT !.out = (IF w.last = t THEN @ ELSE Append(@, Thread(t))) \o <<TLCEval(Remap(q, f, fs))>>,
                     !.next = @ + nn, !.snext = @ + ns, !.last = t, !.pos[t] = @ + 1,
                     !.ids[t] = @ \o [j \in 1..nn |-> w.next + j], !.sl[t] = @ \o [j \in 1..ns |-> w.snext + j]]
      w == FoldLeft(LAMBDA a, t : TLCEval(step(a, t)), w0, order)
  IN [rq |-> w.out, ids |-> w.ids]

RandomOrder(r, lens) ==      \* goroutine t occurs lens[t] times
  LET total == FoldLeft(LAMBDA a, b : a + b, 0, lens)
      pick(a, j) == LET left == SelectSeq([t \in 1..Len(lens) |-> t], LAMBDA t : a.left[t] > 0)
                        t == IF a.order # <<>> /\ a.left[a.order[Len(a.order)]] > 0 /\ RChance(r, 5000 + j, 1, 3)
                             THEN a.order[Len(a.order)] ELSE RPick(r, 6000 + j, left)
                    IN [order |-> Append(a.order, t), left |-> [a.left EXCEPT ![t] = @ - 1]]
  IN FoldLeft(LAMBDA a, j : TLCEval(pick(a, j)), [order |-> <<>>, left |-> lens], [j \in 1..total |-> j]).order

Modes == << "fwd", "fwd", "bp", "bp", "mix" >>
Parts(r, mode, tiny) ==
  LET su0 == Setup(r, mode, tiny)
      su == IF mode = "bp" /\ ~Leak THEN [su0 EXCEPT !.st.rq = Untrack(@)] ELSE su0
      nt == IF tiny THEN 2 ELSE RRange(r, 20, 2, 6)
      same == ~tiny /\ RChance(r, 21, 1, 3)         \* every goroutine runs the same program
      progs == [t \in 1..nt |-> ThreadProg(su, RMix(r, IF same THEN 30 + (t % 2) ELSE 30 + t), mode, t, tiny)]
  IN [setup |-> su.st.rq, n0 |-> PLast(su.st), k0 |-> NSlots(su.st.rq), progs |-> TLCEval(progs)]

RndWeave(i) ==
  LET r == RSeed(Seed, 11 * i + 3)
      mode == Modes[1 + (i % 5)]
      p == Parts(r, mode, FALSE)
  IN [p |-> p, w |-> Weave(p.setup, p.progs, RandomOrder(r, [t \in 1..Len(p.progs) |-> Len(p.progs[t])]), p.n0, p.k0)]
TinyWeave(i, order) ==
  LET r == RSeed(Seed, 17 * i + 5)
      mode == Modes[1 + (i % 5)]
      p == Parts(r, mode, TRUE)
      lens == <<Len(p.progs[1]), Len(p.progs[2])>>
      (* order says whose turn it is; a finished goroutine's turns go to the other one *)
      fit(a, t) == LET u == IF a.left[t] > 0 THEN t ELSE 3 - t IN
                   IF a.left[u] = 0 THEN a ELSE [order |-> Append(a.order, u), left |-> [a.left EXCEPT ![u] = @ - 1]]
      o == FoldLeft(fit, [order |-> <<>>, left |-> lens], order \o <<1, 1, 1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2>>).order
  IN [p |-> p, w |-> Weave(p.setup, p.progs, o, p.n0, p.k0)]

(* the first use of an operation in a process is by several goroutines at once             *)
ColdOps == SetToSeq(AllOps \ {"FC"}) \o <<"FC">>
ColdSetup(op, r, bp) ==
  LET a == RArgs(op, r, 12, 3, FALSE)
      dom(j) == IF op \in Losses THEN "prob" ELSE IF DomOf(op, a.par, j) = "any" THEN "w" ELSE DomOf(op, a.par, j)
      n == Len(a.ss)
      leaves(tr) == [j \in 1..n |-> Leaf(a.ss[j], tr, dom(j))]
      ids == [j \in 1..n |-> j]
  IN IF op = "FC"
     THEN LET x == a.ss[1]  o == a.ss[2][1] IN
          [setup |-> IF bp THEN <<Leaf(x, FALSE, "w")>> ELSE <<Leaf(x, FALSE, "w"), NewFC(x[2], o, "default", "w")>>,
           n0 |-> IF bp THEN 1 ELSE 3, k0 |-> IF bp THEN 0 ELSE 2,
           prog |-> IF bp THEN <<NewFC(x[2], o, "default", "w"), FCForward(1, 1), BP(4)>> ELSE <<FCForward(1, 1)>>]
     ELSE IF bp
     THEN [setup |-> <<Leaf(<<2>>, FALSE, "w")>>, n0 |-> 1, k0 |-> 0,
           prog |-> leaves(TRUE) \o <<Op(op, [j \in 1..n |-> j + 1], a.par), BP(n + 2)>>]
     ELSE [setup |-> leaves(TRUE), n0 |-> n, k0 |-> 0, prog |-> <<Op(op, ids, a.par)>>]
ColdWeave(k, bp, v) ==
  LET p == ColdSetup(ColdOps[k], RSeed(Seed, 900 + 7 * k + v), bp)
      progs == <<p.prog, p.prog, p.prog, p.prog>>
      m == Len(p.prog)
  IN [p |-> [setup |-> p.setup, n0 |-> p.n0, k0 |-> p.k0, progs |-> progs],
      w |-> Weave(p.setup, progs, Flat([j \in 1..m |-> <<1, 2, 3, 4>>]), p.n0, p.k0)]

Woven(cc) == IF cc.k = "cold" THEN ColdWeave(cc.i, cc.bp, cc.v) ELSE IF cc.k = "rnd" THEN RndWeave(cc.i) ELSE TinyWeave(cc.i, cc.order)

Init == /\ Init0
        /\ \/ \E k \in 1..Len(ColdOps), bp \in BOOLEAN, v \in 1..3 : c = [k |-> "cold", i |-> k, bp |-> bp, v |-> v]
           \/ \E i \in 1..NRandom : c = [k |-> "rnd", i |-> i]
           \/ \E i \in 1..NTiny : \E order \in [1..6 -> {1, 2}] :
                 /\ Len(SelectSeq(order, LAMBDA t : t = 1)) = 3
                 /\ c = [k |-> "il", i |-> i, order |-> order]
GenScript(cc) == Woven(cc).w.rq

(* ---- confluence -------------------------------------------------------------------------- *)
Alone(setup, prog) == FoldLeft(LAMBDA hh, q : IF Enabled(hh, q) THEN TLCEval(Exec(hh, q)) ELSE Refuse(hh, q), EmptyHeap, setup \o prog)
Sig(nd) == [sh |-> nd.sh, tr |-> nd.tr, dirty |-> nd.dirty, amb |-> nd.amb, edges |-> nd.edges, g |-> Len(nd.g)]
Confluent ==
  (pc > 0 /\ pc = Len(script) + 1 /\ (c.k # "rnd" \/ c.i % 4 = 0)) =>
     \E x \in {Woven(c)} :
      /\ \E s \in {Alone(x.p.setup, <<>>)} : \A n \in 1..x.p.n0 : Sig(s.nodes[n]) = Sig(h.nodes[n])
      /\ \A t \in 1..Len(x.p.progs) :
           \E a \in {Alone(x.p.setup, x.p.progs[t])} :
              /\ N(a) = x.p.n0 + Len(x.w.ids[t])
              /\ \A n \in 1..Len(x.w.ids[t]) : Sig(a.nodes[x.p.n0 + n]) = Sig(h.nodes[x.w.ids[t][n]])
Inv2 == Inv /\ Confluent
=============================================================================
