-------------------------------- MODULE Qeep -------------------------------
(* The library as a state machine over an abstract heap.                       *)
(*                                                                             *)
(* A heap h is a record                                                        *)
(*   nodes  sequence of tensors (tensor n is h.nodes[n]); a tensor object has   *)
(*     sh      shape                                                           *)
(*     el      terms of its elements over its operands (<<>>: free values)     *)
(*     in      ids of the tensors it was computed from (0: nil)                 *)
(*     edges   the tensor holds backward edges to its operands                  *)
(*     tr      tracked                                                         *)
(*     dirty   spent: it, or a tensor it was computed from, took part in a      *)
(*             back-propagation                                                *)
(*     amb     computed from gradients or from comparisons of spent tensors:    *)
(*             the statement does not settle whether combining it with a        *)
(*             tracked tensor is tracked, so no action does that                *)
(*     gr      for a tensor obtained as a gradient: the back-propagations summed *)
(*     g       the back-propagations whose contributions its gradient sums      *)
(*             (<<>>: the gradient is nil)                                     *)
(*   slots  sequence of tensor ids: variables of type tensor.Tensor owned by    *)
(*          the program or by a layer (0: nil)                                 *)
(*   nbp    number of back-propagations so far                                 *)
(*   log    the behaviour: sequence of events, written for the driver           *)
(*                                                                             *)
(* Gradients are defined by adjoint equations: for back-propagation k with root *)
(* r, the adjoint a(k,n,i) of element i of tensor n is                          *)
(*     [n = r]  +  SUM over consumers c of n in the graph, positions p:         *)
(*                   a(k,c,p) * D(c.el[p], n, i)                                *)
(* and the gradient of n is the sum of its adjoints over n.g.                   *)
EXTENDS Contracts, Json

EmptyHeap == [nodes |-> <<>>, slots |-> <<>>, nbp |-> 0, log |-> <<>>]

Par0 == [d |-> 0, s |-> <<>>, r |-> <<>>, q |-> <<1, 1>>, nilc |-> FALSE]

N(h) == Len(h.nodes)
Has(h, n) == n \in 1..N(h)
XOf(h, n) == [id |-> n, sh |-> h.nodes[n].sh]

Log(h, e) == [h EXCEPT !.log = Append(@, e)]

Node(sh, el, in, edges, tr, dirty, amb) ==
  [sh |-> sh, el |-> el, in |-> in, edges |-> edges, tr |-> tr, dirty |-> dirty, amb |-> amb, g |-> <<>>, gr |-> <<>>]

(* ---- leaves --------------------------------------------------------------- *)
(* via: the constructor; dom: which values the driver may put in; el: explicit  *)
(* element terms for constructors that fix them                                 *)
LeafEl(via, sh, q) ==
  CASE via \in {"Full", "InitFull"} -> [l \in 1..NEl(sh) |-> ConstT(q)]
    [] via = "Zeros" -> [l \in 1..NEl(sh) |-> ZeroT]
    [] via = "Ones"  -> [l \in 1..NEl(sh) |-> OneT]
    [] via = "Eye"   -> [l \in 1..NEl(sh) |-> IF (l - 1) \div sh[1] = (l - 1) % sh[1] THEN OneT ELSE ZeroT]
    [] OTHER -> <<>>

DoLeaf(h, sh, tr, dom, via, q) ==
  LET el == LeafEl(via, sh, q) IN
  Log([h EXCEPT !.nodes = Append(@, Node(sh, el, <<>>, FALSE, tr, FALSE, FALSE))],
      [t |-> "leaf", id |-> N(h) + 1, sh |-> sh, tr |-> tr, dom |-> dom, via |-> via, q |-> q, el |-> el])

(* ---- operations ------------------------------------------------------------ *)
AnyTr(h, in) == \E k \in 1..Len(in) : h.nodes[in[k]].tr
AnyDirty(h, in) == \E k \in 1..Len(in) : h.nodes[in[k]].dirty
AnyAmb(h, in) == \E k \in 1..Len(in) : h.nodes[in[k]].amb

(* the statement settles the tracking of the result *)
OpSettled(h, op, in) ==
  (\A k \in 1..Len(in) : in[k] > 0) =>
     (op \in CmpOps \/ AnyDirty(h, in) \/ ~AnyAmb(h, in) \/ ~AnyTr(h, in))

OpAccepted(h, op, in, par) ==
  /\ Len(in) > 0
  /\ \A k \in 1..Len(in) : in[k] > 0
  /\ Precond(op, [k \in 1..Len(in) |-> h.nodes[in[k]].sh], par)

ResultNode(h, op, in, par) ==
  LET ss == [k \in 1..Len(in) |-> h.nodes[in[k]].sh]
      xs == [k \in 1..Len(in) |-> XOf(h, in[k])]
      cmp == op \in CmpOps
      dirty == ~cmp /\ AnyDirty(h, in)
      tr == ~cmp /\ ~dirty /\ AnyTr(h, in)
  IN Node(ResultShape(op, ss, par), Elements(op, xs, par), in, tr, tr, dirty,
          ~dirty /\ ~tr /\ (AnyAmb(h, in) \/ (cmp /\ AnyDirty(h, in))))

DoOp(h, op, in, par) ==
  IF OpAccepted(h, op, in, par)
  THEN LET nd == ResultNode(h, op, in, par) IN
       Log([h EXCEPT !.nodes = Append(@, nd)],
           [t |-> "op", op |-> op, in |-> in, par |-> par, ok |-> TRUE,
            id |-> N(h) + 1, sh |-> nd.sh, el |-> nd.el])
  ELSE Log(h, [t |-> "op", op |-> op, in |-> in, par |-> par, ok |-> FALSE])

(* ---- observations ----------------------------------------------------------- *)
DoScalar(h, op, n) ==         \* Sum Max Min Avg Mean Var Std of the whole tensor
  Log(h, [t |-> "scalar", op |-> op, n |-> n,
          el |-> Stat(op, [i \in 1..NEl(h.nodes[n].sh) |-> X(n, i - 1)])])

DoAt(h, n, idx) ==
  LET s == h.nodes[n].sh
      ok == Len(idx) = Len(s) /\ \A j \in 1..Len(s) : 0 <= idx[j] /\ idx[j] < s[j]
  IN Log(h, [t |-> "at", n |-> n, idx |-> idx, ok |-> ok,
             el |-> IF ok THEN X(n, Lin(idx, s)) ELSE ZeroT])

DoEquals(h, n, m) ==
  LET ok == n > 0 /\ m > 0 /\ h.nodes[n].sh = h.nodes[m].sh
  IN Log(h, [t |-> "equals", n |-> n, m |-> m, ok |-> ok,
             el |-> IF ok THEN [i \in 1..NEl(h.nodes[n].sh) |-> <<"cmp", "eq", X(n, i - 1), X(m, i - 1)>>]
                    ELSE <<>>])

(* two tensors hold identical elements (same result computed in two defined ways) *)
DoSame(h, n, m) == Log(h, [t |-> "same", n |-> n, m |-> m])
(* every element of n is finite and lies in [lo, hi] (decimals; "": unbounded) *)
DoBound(h, n, lo, hi) == Log(h, [t |-> "bound", n |-> n, lo |-> lo, hi |-> hi])

(* ---- back-propagation -------------------------------------------------------- *)
(* tracked tensors reachable from r through backward edges *)
RECURSIVE ReachFrom(_, _, _)
ReachFrom(h, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET nxt == UNION { IF h.nodes[c].edges
                          THEN {h.nodes[c].in[j] : j \in 1..Len(h.nodes[c].in)} ELSE {} : c \in todo }
           new == {o \in nxt : h.nodes[o].tr} \ seen
       IN ReachFrom(h, new, seen \cup new)
Reach(h, r) == IF h.nodes[r].tr THEN ReachFrom(h, {r}, {r}) ELSE {}

(* proviso (a): graphs are single-use apart from shared leaves *)
BPSettled(h, r) == \A n \in Reach(h, r) : h.nodes[n].edges => ~h.nodes[n].dirty

SortedDesc(S) == SetToSortSeq(S, LAMBDA a, b : a > b)

(* The adjoint equations of the nodes in Reach, in reverse order of creation.     *)
(* acc[n][i+1] collects the summands of the adjoint of element i of tensor n.      *)
AdjointEqs(h, r, k) ==
  LET S == Reach(h, r)
      order == SortedDesc(S)
      contribs(c) == LET el == h.nodes[c].el IN      \* <<n, i, summand>> of consumer c
        Flat([p \in 1..Len(el) |->
           LET rv == SelectSeq(TLCEval(Rev(el[p], OneT)), LAMBDA e : e[1] \in S) IN
           [j \in 1..Len(rv) |-> <<rv[j][1], rv[j][2], ProdT(<< <<"a", k, c, p - 1>>, rv[j][3]>>)>>]])
      start == TLCEval([n \in S |-> [i \in 1..NEl(h.nodes[n].sh) |-> IF n = r THEN <<OneT>> ELSE <<>>]])
      all == FoldLeft(LAMBDA acc, c :
                IF h.nodes[c].edges
                THEN FoldLeft(LAMBDA a2, e : [a2 EXCEPT ![e[1]] = [@ EXCEPT ![e[2] + 1] = Append(@, e[3])]],
                              acc, TLCEval(contribs(c)))
                ELSE acc, start, order)
  IN [m \in 1..Len(order) |->
        [n |-> order[m], el |-> TLCEval([i \in 1..NEl(h.nodes[order[m]].sh) |-> SumT(all[order[m]][i])])]]

(* the work of a back-propagation: one application per link from a result to a tracked operand *)
Links(h, S) == FoldLeft(LAMBDA a, n : a + (IF h.nodes[n].edges
                                           THEN Cardinality({j \in 1..Len(h.nodes[n].in) : h.nodes[h.nodes[n].in[j]].tr}) ELSE 0),
                        0, SetToSeq(S))

DoBackProp(h, r) ==
  IF r <= 0 THEN Log(h, [t |-> "bp", root |-> r, ok |-> FALSE])
  ELSE LET S == Reach(h, r)
           k == h.nbp + 1
       IN Log([h EXCEPT !.nbp = k,
                        !.nodes = [n \in 1..N(h) |->
                                     IF n \in S THEN [h.nodes[n] EXCEPT !.dirty = TRUE, !.g = Append(@, k)]
                                     ELSE h.nodes[n]]],
              [t |-> "bp", root |-> r, ok |-> TRUE, k |-> k, links |-> Links(h, S), eqs |-> AdjointEqs(h, r, k)])

(* ---- ResetGradContext ---------------------------------------------------------- *)
RECURSIVE DependsOn(_, _, _)
DependsOn(h, c, n) == \E j \in 1..Len(h.nodes[c].in) :
                         h.nodes[c].in[j] > 0 /\ (h.nodes[c].in[j] = n \/ DependsOn(h, h.nodes[c].in[j], n))

(* proviso (b): no tracked, not yet back-propagated result is computed from n *)
ResetSettled(h, n) == \A c \in (n + 1)..N(h) :
                         (h.nodes[c].tr /\ h.nodes[c].edges /\ ~h.nodes[c].dirty) => ~DependsOn(h, c, n)

DoReset(h, n, tr) ==
  Log([h EXCEPT !.nodes[n].tr = tr, !.nodes[n].dirty = FALSE, !.nodes[n].amb = FALSE,
                !.nodes[n].g = <<>>, !.nodes[n].edges = FALSE],
      [t |-> "reset", n |-> n, tr |-> tr])

(* ---- the gradient as a tensor ------------------------------------------------------ *)
GradEl(h, n) == [i \in 1..NEl(h.nodes[n].sh) |->
                   SumT([m \in 1..Len(h.nodes[n].g) |-> <<"a", h.nodes[n].g[m], n, i - 1>>])]
DoTakeGrad(h, n) ==          \* requires a gradient
  Log([h EXCEPT !.nodes = Append(@, [Node(h.nodes[n].sh, GradEl(h, n), <<n>>, FALSE, FALSE, FALSE, TRUE) EXCEPT !.gr = h.nodes[n].g])],
      [t |-> "grad", n |-> n, id |-> N(h) + 1, sh |-> h.nodes[n].sh, el |-> GradEl(h, n)])

(* Gradient() hands out the gradient object itself, and gradients of one back-propagation *)
(* may share an object: what ResetGradContext on a gradient tensor does to another          *)
(* gradient tensor is not stated, so histories that could see it are not generated           *)
SharesK(a, b) == \E i \in 1..Len(a), j \in 1..Len(b) : a[i] = b[j]
AliasFree(h, n) == \A m \in 1..N(h) : m # n => ~SharesK(h.nodes[m].gr, h.nodes[n].gr)
GradSettled(h, n) == \A m \in 1..N(h) : SharesK(h.nodes[m].gr, h.nodes[n].g) => (h.nodes[m].amb /\ h.nodes[m].in # <<n>>)

(* ---- slots (tensor variables), layers, optimizer --------------------------------------- *)
DoSlot(h, n) == Log([h EXCEPT !.slots = Append(@, n)], [t |-> "slot", s |-> Len(h.slots) + 1, n |-> n])
DoSetSlot(h, s, n) == Log([h EXCEPT !.slots[s] = n], [t |-> "set", s |-> s, n |-> n])

(* an FC layer owns two slots; its parameters are tracked leaves made by          *)
(* initializers (init = "custom": values of domain dom; "default")                *)
DoNewFC(h, ins, outs, init, dom) ==
  LET w == N(h) + 1  b == N(h) + 2
      lf == Node(<<outs>>, <<>>, <<>>, FALSE, TRUE, FALSE, FALSE) IN
  Log([h EXCEPT !.nodes = @ \o <<lf, lf>>, !.slots = @ \o <<w, b>>],
      [t |-> "fcnew", w |-> w, b |-> b, s |-> Len(h.slots) + 1, ins |-> ins, outs |-> outs,
       init |-> init, dom |-> dom, sh |-> <<outs>>])

(* Forward of the layer owning slots s and s+1 on tensor x *)
DoFCForward(h, s, x) ==
  LET in == <<x, h.slots[s], h.slots[s + 1]>> IN
  IF OpAccepted(h, "FC", in, Par0)
  THEN LET nd == ResultNode(h, "FC", in, Par0) IN
       Log([h EXCEPT !.nodes = Append(@, nd)],
           [t |-> "fcfwd", s |-> s, x |-> x, ok |-> TRUE, id |-> N(h) + 1, sh |-> nd.sh, el |-> nd.el, in |-> in])
  ELSE Log(h, [t |-> "fcfwd", s |-> s, x |-> x, ok |-> FALSE])

(* one SGD update through the address of slot s with learning rate lr (a           *)
(* constant; nilc: the default configuration).  The replaced tensor is untouched.  *)
(* gid > 0: tensor gid is the gradient of the slot's tensor, taken since the last    *)
(* back-propagation, so the update is stated over its observed elements.             *)
DoUpdate(h, s, lr, nilc, gid) ==
  LET w == h.slots[s] IN
  IF w = 0 \/ (w > 0 /\ h.nodes[w].g = <<>>)
  THEN Log(h, [t |-> "upd", s |-> s, lr |-> lr, nilc |-> nilc, ok |-> FALSE])
  ELSE LET ge == IF gid > 0 THEN [i \in 1..NEl(h.nodes[w].sh) |-> X(gid, i - 1)] ELSE GradEl(h, w)
           el == [i \in 1..NEl(h.nodes[w].sh) |-> SubT(X(w, i - 1), <<"*", <<ConstT(lr), ge[i]>>>>)]
           nd == Node(h.nodes[w].sh, el, <<w>>, FALSE, FALSE, TRUE, FALSE)
       IN Log([h EXCEPT !.nodes = Append(@, nd), !.slots[s] = N(h) + 1],
              [t |-> "upd", s |-> s, lr |-> lr, nilc |-> nilc, ok |-> TRUE,
               id |-> N(h) + 1, sh |-> nd.sh, el |-> el])

(* the program overwrites every slice it passed in or got back so far: nothing changes *)
DoMutate(h) == Log(h, [t |-> "mut"])

(* ---- totality probes: calls whose results are inspected and dropped ------------------------ *)
DoTries(h, list) ==
  Log(h, [t |-> "tries", list |-> TLCEval([j \in 1..Len(list) |->
            LET e == list[j]  o == TryOutcome(e[1], e[2], e[3], LAMBDA n : h.nodes[n].sh) IN
            [op |-> e[1], in |-> e[2], par |-> e[3], res |-> o.res, sh |-> o.sh]])])
DoCalls(h, list) ==
  Log(h, [t |-> "calls", list |-> TLCEval([j \in 1..Len(list) |-> list[j] @@ CallOutcome(list[j])])])

(* ---- scripts: requests executed by the machine ------------------------------------------- *)
(* Requests refer to tensors and slots by id; a request may be skipped by the machine when the *)
(* statement does not settle its outcome (skip = not enabled).                                 *)
Leaf(sh, tr, dom) == [t |-> "leaf", sh |-> sh, tr |-> tr, dom |-> dom, via |-> "TensorOf", q |-> <<0, 1>>]
LeafVia(sh, tr, via, q) == [t |-> "leaf", sh |-> sh, tr |-> tr, dom |-> "any", via |-> via, q |-> q]
Op(op, in, par) == [t |-> "op", op |-> op, in |-> in, par |-> par]
BP(n) == [t |-> "bp", n |-> n]
Reset(n, tr) == [t |-> "reset", n |-> n, tr |-> tr]
TakeGrad(n) == [t |-> "grad", n |-> n]
Scalar(op, n) == [t |-> "scalar", op |-> op, n |-> n]
At(n, idx) == [t |-> "at", n |-> n, idx |-> idx]
EqualsReq(n, m) == [t |-> "equals", n |-> n, m |-> m]
AltReq(id, n, num, den) == [t |-> "alt", id |-> id, n |-> n, num |-> num, den |-> den]   \* known finding: gradient of n may be num/den of the expected
BoundReq(n, lo, hi) == [t |-> "bound", n |-> n, lo |-> lo, hi |-> hi]
SameReq(n, m) == [t |-> "same", n |-> n, m |-> m]
Mutate == [t |-> "mut"]
Thread(g) == [t |-> "thr", g |-> g]                  \* the following requests belong to goroutine g (0: before the goroutines start)
Tries(list) == [t |-> "tries", list |-> list]       \* list of <<op, operands, arguments>>
Calls(list) == [t |-> "calls", list |-> list]
SlotReq(n) == [t |-> "slot", n |-> n]
SetReq(s, n) == [t |-> "set", s |-> s, n |-> n]
NewFC(ins, outs, init, dom) == [t |-> "fcnew", ins |-> ins, outs |-> outs, init |-> init, dom |-> dom]
FCForward(s, x) == [t |-> "fcfwd", s |-> s, x |-> x]
Update(s, lr) == [t |-> "upd", s |-> s, lr |-> lr, nilc |-> FALSE, gid |-> 0]
UpdateBy(s, lr, gid) == [t |-> "upd", s |-> s, lr |-> lr, nilc |-> FALSE, gid |-> gid]
UpdateDefault(s) == [t |-> "upd", s |-> s, lr |-> <<"0.01">>, nilc |-> TRUE, gid |-> 0]

Enabled(h, r) ==
  CASE r.t = "op" -> OpSettled(h, r.op, r.in)
    [] r.t = "fcfwd" -> (r.x > 0 /\ h.slots[r.s] > 0 /\ h.slots[r.s + 1] > 0) =>
                          OpSettled(h, "FC", <<r.x, h.slots[r.s], h.slots[r.s + 1]>>)
    [] r.t = "bp" -> r.n > 0 => BPSettled(h, r.n)
    [] r.t = "reset" -> ResetSettled(h, r.n) /\ AliasFree(h, r.n)
    [] r.t = "grad" -> h.nodes[r.n].g # <<>> /\ GradSettled(h, r.n)
    [] r.t = "upd" -> r.gid > 0 => (h.nodes[h.slots[r.s]].g # <<>> /\ h.nodes[r.gid].in = <<h.slots[r.s]>> /\ h.nodes[r.gid].sh = h.nodes[h.slots[r.s]].sh)
    [] OTHER -> TRUE

Exec(h, r) ==
  CASE r.t = "leaf" -> DoLeaf(h, r.sh, r.tr, r.dom, r.via, r.q)
    [] r.t = "op" -> DoOp(h, r.op, r.in, r.par)
    [] r.t = "bp" -> DoBackProp(h, r.n)
    [] r.t = "reset" -> DoReset(h, r.n, r.tr)
    [] r.t = "grad" -> DoTakeGrad(h, r.n)
    [] r.t = "scalar" -> DoScalar(h, r.op, r.n)
    [] r.t = "at" -> DoAt(h, r.n, r.idx)
    [] r.t = "equals" -> DoEquals(h, r.n, r.m)
    [] r.t = "alt" -> Log(h, r)
    [] r.t = "same" -> DoSame(h, r.n, r.m)
    [] r.t = "bound" -> DoBound(h, r.n, r.lo, r.hi)
    [] r.t = "mut" -> DoMutate(h)
    [] r.t = "thr" -> Log(h, r)
    [] r.t = "tries" -> DoTries(h, r.list)
    [] r.t = "calls" -> DoCalls(h, r.list)
    [] r.t = "slot" -> DoSlot(h, r.n)
    [] r.t = "set" -> DoSetSlot(h, r.s, r.n)
    [] r.t = "fcnew" -> DoNewFC(h, r.ins, r.outs, r.init, r.dom)
    [] r.t = "fcfwd" -> DoFCForward(h, r.s, r.x)
    [] r.t = "upd" -> DoUpdate(h, r.s, r.lr, r.nilc, r.gid)

(* a refused request whose result later requests may refer to: a fresh untracked tensor of   *)
(* the same shape takes its place, so that ids keep their meaning                             *)
Refuse(h, r) ==
  LET sub(sh) == DoLeaf(h, sh, FALSE, "w", "TensorOf", <<0, 1>>)
      fcin == <<r.x, h.slots[r.s], h.slots[r.s + 1]>> IN
  CASE r.t = "op" -> IF OpAccepted(h, r.op, r.in, r.par)
                     THEN sub(ResultShape(r.op, [k \in 1..Len(r.in) |-> h.nodes[r.in[k]].sh], r.par)) ELSE h
    [] r.t = "grad" -> sub(h.nodes[r.n].sh)
    [] r.t = "fcfwd" -> IF OpAccepted(h, "FC", fcin, Par0)
                        THEN sub(ResultShape("FC", [k \in 1..3 |-> h.nodes[fcin[k]].sh], Par0)) ELSE h
    [] r.t = "upd" -> IF h.slots[r.s] > 0 THEN sub(h.nodes[h.slots[r.s]].sh) ELSE h
    [] OTHER -> h

(* ---- invariants of the machine itself (checked on every explored state) -------------------- *)
NodeOK(h, n) ==
  LET nd == h.nodes[n] IN
  /\ ValidDims(nd.sh)
  /\ nd.el # <<>> => Len(nd.el) = NEl(nd.sh)
  /\ nd.edges => nd.tr
  /\ nd.g # <<>> => nd.tr /\ nd.dirty
  /\ \A j \in 1..Len(nd.in) : nd.in[j] < n
HeapOK(h) == \A n \in 1..N(h) : NodeOK(h, n)
=============================================================================
