---------------------------- MODULE ConcAccess ----------------------------
(* The memory accesses behind concurrent use of the library.                          *)
(* Every tensor has two cells, "data" (elements; written once, by its maker) and "ctx" *)
(* (tracking, spentness, gradient, backward links); "pkg" stands for package state.     *)
(* A goroutine repeatedly picks a call and performs its accesses one at a time:          *)
(*   forward op   reads data and ctx of the operands, writes data and ctx of the result    *)
(*   backward     reads ctx of the root; for every tracked tensor reached reads its        *)
(*                data, reads and writes its ctx, and reads the ctx of its operands          *)
(* Nothing orders accesses of two goroutines, so two accesses to one cell by different        *)
(* goroutines, one of them a write, are a race.                                              *)
(* Discipline of the property: a goroutine back-propagates only graphs that reach tracked     *)
(* tensors of its own.                                                                       *)
(* Bug selects a departure; each is refuted (bin/checks.py runs them):                         *)
(*   "scratch"  forward ops compute through a package-level buffer                             *)
(*   "memo"     forward ops cache something in an operand                                       *)
(*   "count"    forward ops count their uses in the operand's context                            *)
(*   "touch"    backward writes the context of untracked operands too                            *)
(*   "leak"     the discipline is given up                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NG, NOps,
          Few,       \* TRUE: goroutines other than the first make one call less
          Bug

G == 1..NG
NS == 3                                   \* shared: 1 tracked leaf, 2 untracked leaf, 3 = op(1, 2), tracked
Leaf0 == NS + NG * NOps                    \* and a tracked leaf per goroutine
MaxT == Leaf0 + NG
Own(g) == {NS + (g - 1) * NOps + k : k \in 1..NOps} \cup {Leaf0 + g}

VARIABLES tr, in, val,     \* per tensor: tracked, operands, elements as a term
          made,            \* tensors finished
          todo,            \* per goroutine: remaining accesses of its current call
          reg,             \* per goroutine: what it has read so far
          cnt,             \* per goroutine: calls made
          want,            \* per tensor: the term a sequential execution gives
          pkg,             \* contents of the package buffer
          grad,            \* per tensor: gradient contributions, as a sequence
          wr, acc          \* per cell: goroutines that wrote / accessed it
vars == <<tr, in, val, made, todo, reg, cnt, want, pkg, grad, wr, acc>>

Cells == {<<"data", t>> : t \in 1..MaxT} \cup {<<"ctx", t>> : t \in 1..MaxT} \cup {<<"pkg", 0>>}

Init ==
  /\ tr = [t \in 1..MaxT |-> t \in {1, 3} \/ t > Leaf0]
  /\ in = [t \in 1..MaxT |-> IF t = 3 THEN <<1, 2>> ELSE <<>>]
  /\ val = [t \in 1..MaxT |-> IF t <= 2 \/ t > Leaf0 THEN <<t>> ELSE IF t = 3 THEN <<"op", <<1>>, <<2>> >> ELSE <<>>]
  /\ want = val
  /\ made = (1..NS) \cup {Leaf0 + g : g \in G}
  /\ todo = [g \in G |-> <<>>] /\ reg = [g \in G |-> <<>>] /\ cnt = [g \in G |-> 0]
  /\ pkg = <<>> /\ grad = [t \in 1..MaxT |-> <<>>]
  /\ wr = [c \in Cells |-> {}] /\ acc = [c \in Cells |-> {}]

Visible(g) == (1..NS) \cup (Own(g) \cap made)

(* one access: kind, cell, and what it means *)
A(k, c, m) == [k |-> k, c |-> c, m |-> m]
FwdAccesses(a, b, r) ==
  <<A("r", <<"data", a>>, "get")>>
  \o (IF Bug = "scratch" THEN <<A("w", <<"pkg", 0>>, "stash")>> ELSE <<>>)
  \o <<A("r", <<"data", b>>, "get")>>
  \o <<A("r", <<"ctx", a>>, "no"), A("r", <<"ctx", b>>, "no")>>
  \o (IF Bug = "memo" THEN <<A("w", <<"data", a>>, "no")>> ELSE <<>>)
  \o (IF Bug = "count" THEN <<A("w", <<"ctx", b>>, "no")>> ELSE <<>>)
  \o (IF Bug = "scratch" THEN <<A("r", <<"pkg", 0>>, "fetch")>> ELSE <<>>)
  \o <<A("w", <<"data", r>>, "put"), A("w", <<"ctx", r>>, "done")>>

RECURSIVE Reach(_)
Reach(S) == LET n == S \cup UNION {{in[t][j] : j \in 1..Len(in[t])} : t \in {u \in S : tr[u]}} IN
            IF n = S THEN S ELSE Reach(n)
Order(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] > q[j]
RECURSIVE Cat(_, _)
Cat(f(_), q) == IF q = <<>> THEN <<>> ELSE f(Head(q)) \o Cat(f, Tail(q))
BwdAccesses(r) ==
  LET R == {t \in Reach({r}) : tr[t]}
      one(t) == <<A("r", <<"ctx", t>>, "no"), A("w", <<"ctx", t>>, "grad")>>
                \o Cat(LAMBDA o : <<A("r", <<"data", o>>, "no"), A("r", <<"ctx", o>>, "no")>>
                                  \o (IF Bug = "touch" /\ ~tr[o] THEN <<A("w", <<"ctx", o>>, "no")>> ELSE <<>>), in[t])
  IN Cat(one, Order(R))

(* a goroutine starts a call                                                            *)
StartFwd(g) ==
  \E a, b \in Visible(g) :
     LET r == NS + (g - 1) * NOps + cnt[g] + 1 IN
     /\ todo' = [todo EXCEPT ![g] = FwdAccesses(a, b, r)]
     /\ in' = [in EXCEPT ![r] = <<a, b>>]
     /\ tr' = [tr EXCEPT ![r] = tr[a] \/ tr[b]]
     /\ want' = [want EXCEPT ![r] = <<"op", want[a], want[b]>>]
     /\ UNCHANGED <<val, made, pkg, grad, wr, acc>>
StartBwd(g) ==
  \E r \in Own(g) \cap made :
     /\ tr[r] /\ grad[r] = <<>>
     /\ Bug # "leak" => \A t \in Reach({r}) : tr[t] => t \in Own(g)
     /\ todo' = [todo EXCEPT ![g] = BwdAccesses(r)]
     /\ UNCHANGED <<tr, in, val, made, want, pkg, grad, wr, acc>>
Start(g) ==
  /\ todo[g] = <<>> /\ cnt[g] < (IF Few /\ g > 1 THEN NOps - 1 ELSE NOps)
  /\ cnt' = [cnt EXCEPT ![g] = @ + 1]
  /\ reg' = [reg EXCEPT ![g] = <<>>]
  /\ StartFwd(g) \/ StartBwd(g)

Step(g) ==
  /\ todo[g] # <<>>
  /\ LET x == Head(todo[g])
         r == NS + (g - 1) * NOps + cnt[g]
         t == x.c[2]
     IN /\ todo' = [todo EXCEPT ![g] = Tail(@)]
        /\ acc' = [acc EXCEPT ![x.c] = @ \cup {g}]
        /\ wr' = IF x.k = "w" THEN [wr EXCEPT ![x.c] = @ \cup {g}] ELSE wr
        /\ reg' = IF x.m = "get" THEN [reg EXCEPT ![g] = Append(@, val[t])]
                  ELSE IF x.m = "fetch" THEN [reg EXCEPT ![g][1] = pkg] ELSE reg
        /\ pkg' = IF x.m = "stash" THEN reg[g][1] ELSE pkg
        /\ val' = IF x.m = "put" THEN [val EXCEPT ![t] = <<"op", reg[g][1], reg[g][2]>>] ELSE val
        /\ made' = IF x.m = "done" THEN made \cup {r} ELSE made
        /\ grad' = IF x.m = "grad" THEN [grad EXCEPT ![t] = Append(@, g)] ELSE grad
  /\ UNCHANGED <<tr, in, cnt, want>>

Next == \E g \in G : Start(g) \/ Step(g)

NoRace == \A c \in Cells : \A g \in wr[c] : acc[c] \subseteq {g}
Deterministic == \A t \in made : val[t] = want[t]
SharedIntact == \A t \in 1..NS : grad[t] = <<>>
=============================================================================
