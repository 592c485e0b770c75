---------------------------- MODULE BackwardWalk ----------------------------
(* One back-propagation over a graph of gradient contexts, link by link.          *)
(*                                                                               *)
(* A context is a number; context n has a sequence of links to operands < n (the  *)
(* same operand may occur twice), of which some may be untracked.  The local       *)
(* derivative of a link is a number, so that the gradient the statement asks for   *)
(* is the sum over all paths from the root of the products of the links' numbers   *)
(* (Adj, the adjoint equation), added to what the context had before.              *)
(*                                                                               *)
(* Order = "abstract": any context whose gradient is complete may apply its links; *)
(*   every schedule has to give Adj (the value does not depend on the order).      *)
(* Order = "dfs": the walk of gradtrack.backward: reverse post-order of a           *)
(*   depth-first search, and it refines the abstract one.                          *)
(* The others are wrong and are refuted: "naive" (the walk as it was: every link    *)
(*   hands its target's gradient on at once), "pre" (pre-order), "bfs" (breadth     *)
(*   first, every context once), "post" (not reversed), "once" (only one link per    *)
(*   pair of contexts), "revisit" (contexts not marked as visited),                 *)
(*   "untracked" (walks through contexts that are not tracked),                     *)
(*   "overwrite" (assigns where it has to add), "stop" (stops at a context that     *)
(*   already had a gradient).                                                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,          \* contexts 1..N
          MaxIn,      \* links per context
          Order

VARIABLES g,          \* the graph: [links |-> [1..N -> Seq], tracked |-> SUBSET 1..N, had |-> [1..N -> Int], root |-> 1..N, adj |-> [1..N -> Int]]
          todo,       \* contexts still to be applied: a sequence (the order), or the stack of links of the naive walk
          edge,       \* the link of Head(todo) that is next
          grad,       \* the gradients
          dirty,      \* the contexts that took part in a back-propagation
          done        \* how often a link (context, position) was applied

vars == <<g, todo, edge, grad, dirty, done>>

Ctx == 1..N
None == -1000                  \* no gradient yet
Num(x) == IF x = None THEN 0 ELSE x
W(n, j) == 2 * n + 3 * j - 4   \* the local derivative of link j of context n (a number that may be negative, never 0)

LinkSeqs(n) == UNION {[1..k -> 1..(n - 1)] : k \in 0..(IF n = 1 THEN 0 ELSE MaxIn)}

RECURSIVE Graphs(_)
Graphs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, l) : s \in Graphs(n - 1), l \in LinkSeqs(n)}

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)

(* contexts the root's gradient reaches: through tracked contexts only *)
RECURSIVE Closure(_, _, _)
Closure(links, tr, S) ==
  LET T == S \cup {m \in tr : \E n \in S : \E j \in 1..Len(links[n]) : links[n][j] = m}
  IN IF T = S THEN S ELSE Closure(links, tr, T)
Reached(links, tr, root) == IF root \in tr THEN Closure(links, tr, {root}) ELSE {}

(* the adjoint equation, evaluated from the root downwards *)
RECURSIVE AdjFrom(_, _, _, _, _)
AdjFrom(links, R, root, n, acc) ==       \* acc: adjoints of the contexts > n
  IF n = 0 THEN acc
  ELSE LET v == (IF n = root THEN 1 ELSE 0)
                + SumTo([m \in Ctx |-> IF m <= n \/ m \notin R THEN 0
                                       ELSE SumTo([j \in 1..Len(links[m]) |-> IF links[m][j] = n THEN W(m, j) * acc[m] ELSE 0], Len(links[m]))], N)
       IN AdjFrom(links, R, root, n - 1, [acc EXCEPT ![n] = IF n \in R THEN v ELSE 0])
Adj(links, tr, root) == AdjFrom(links, Reached(links, tr, root), root, N, [n \in Ctx |-> 0])

(* the tracked set is as the library keeps it: a context with a tracked operand is tracked, *)
(* one with only untracked operands is not; only leaves choose                               *)
RECURSIVE TrackOf(_, _, _)
TrackOf(links, lv, n) == IF n > N THEN lv
  ELSE TrackOf(links, IF links[n] # <<>> /\ \E j \in 1..Len(links[n]) : links[n][j] \in lv THEN lv \cup {n} ELSE lv, n + 1)

(* ---- the orders ---- *)
RECURSIVE Dfs(_, _, _, _)
Dfs(links, tr, stack, st) ==     \* stack: <<context, position>>; st = [seen, post, pre]
  IF stack = <<>> THEN st
  ELSE LET n == stack[1][1]  j == stack[1][2]  rest == Tail(stack)
       IN IF j > Len(links[n]) THEN Dfs(links, tr, rest, [st EXCEPT !.post = Append(@, n)])
          ELSE LET m == links[n][j]
                   up == << <<n, j + 1>> >> \o rest
               IN IF m \notin tr \/ (m \in st.seen /\ Order # "revisit") THEN Dfs(links, tr, up, st)
                  ELSE Dfs(links, tr, << <<m, 1>> >> \o up, [st EXCEPT !.seen = @ \cup {m}, !.pre = Append(@, m)])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Bfs(_, _, _, _)
Bfs(links, tr, s, i) ==
  IF i > Len(s) THEN s
  ELSE LET RECURSIVE add(_, _)
           add(t, j) == IF j > Len(links[s[i]]) THEN t
                        ELSE LET m == links[s[i]][j] IN add(IF m \in tr /\ \A k \in 1..Len(t) : t[k] # m THEN Append(t, m) ELSE t, j + 1)
       IN Bfs(links, tr, add(s, 1), i + 1)

OrderOf(links, tr, root) ==
  LET walkable == IF Order = "untracked" THEN Ctx ELSE tr
      d == Dfs(links, walkable, << <<root, 1>> >>, [seen |-> {root}, post |-> <<>>, pre |-> <<root>>])
  IN IF root \notin tr THEN <<>>
     ELSE IF Order = "pre" THEN d.pre
     ELSE IF Order = "post" THEN d.post
     ELSE IF Order = "bfs" THEN Bfs(links, tr, <<root>>, 1)
     ELSE Rev(d.post)

Init ==
  /\ \E links \in Graphs(N) :
     \E lv \in SUBSET {n \in Ctx : links[n] = <<>>} :
     \E root \in Ctx :
     \E had \in SUBSET {n \in lv : TRUE} :
       LET tr == TrackOf(links, lv, 1)
       IN /\ g = [links |-> links, tracked |-> tr, root |-> root,
                  had |-> [n \in Ctx |-> IF n \in had THEN 100 ELSE None], adj |-> Adj(links, tr, root)]
          /\ todo = IF Order = "abstract" THEN <<>>
                    ELSE IF Order = "naive" THEN (IF root \in tr THEN << <<root, 1>> >> ELSE <<>>)
                    ELSE OrderOf(links, tr, root)
          /\ dirty = IF root \in tr THEN Reached(links, tr, root) ELSE {}
          /\ grad = [n \in Ctx |-> IF n = root /\ root \in tr THEN (IF n \in had THEN 101 ELSE 1) ELSE IF n \in had THEN 100 ELSE None]
  /\ edge = 1
  /\ done = [n \in Ctx |-> [j \in 1..Len(g.links[n]) |-> 0]]

R == Reached(g.links, g.tracked, g.root)
Own(n) == grad[n]              \* the gradient a link multiplies: a leaf has no links, so an earlier gradient never is in it

Deliver(n, j) ==
  LET m == g.links[n][j]
      skip == (m \notin g.tracked /\ Order # "untracked")
              \/ (Order = "once" /\ \E k \in 1..(j - 1) : g.links[n][k] = m)
              \/ (Order = "stop" /\ grad[m] # None)
  IN /\ done' = [done EXCEPT ![n][j] = @ + 1]
     /\ grad' = IF skip THEN grad
                ELSE [grad EXCEPT ![m] = IF Order = "overwrite" THEN W(n, j) * Num(Own(n)) ELSE Num(@) + W(n, j) * Num(Own(n))]

(* the walks in an order fixed beforehand *)
Apply == /\ Order \notin {"abstract", "naive"}
         /\ todo # <<>> /\ edge <= Len(g.links[Head(todo)])
         /\ Deliver(Head(todo), edge)
         /\ edge' = edge + 1
         /\ UNCHANGED <<g, todo, dirty>>
Advance == /\ Order \notin {"abstract", "naive"}
           /\ todo # <<>> /\ edge > Len(g.links[Head(todo)])
           /\ todo' = Tail(todo) /\ edge' = 1
           /\ UNCHANGED <<g, grad, dirty, done>>

(* any complete context may apply any of its links *)
Complete(n) == \A m \in R : \A j \in 1..Len(g.links[m]) : g.links[m][j] = n => done[m][j] = 1
AnyLink == \E n \in R : /\ Complete(n)
                       /\ \E j \in 1..Len(g.links[n]) : done[n][j] = 0 /\ Deliver(n, j)
Any == Order = "abstract" /\ AnyLink /\ UNCHANGED <<g, todo, edge, dirty>>

(* the walk as it was: depth first, handing on whatever has arrived *)
Naive == /\ Order = "naive"
         /\ todo # <<>>
         /\ LET n == todo[1][1]  j == todo[1][2]  rest == Tail(todo) IN
            IF j > Len(g.links[n]) THEN todo' = rest /\ UNCHANGED <<grad, done>>
            ELSE /\ Deliver(n, j)
                 /\ todo' = (IF g.links[n][j] \in g.tracked THEN << <<g.links[n][j], 1>> >> ELSE <<>>) \o << <<n, j + 1>> >> \o rest
         /\ UNCHANGED <<g, edge, dirty>>

Next == Apply \/ Advance \/ Any \/ Naive
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- what has to hold ---- *)
(* no link is applied twice, so the work is the number of links *)
EachLinkOnce == \A n \in Ctx : \A j \in 1..Len(g.links[n]) : done[n][j] <= 1
(* only the contexts that the root's gradient reaches are touched *)
Frame == \A n \in Ctx : n \notin R => grad[n] = g.had[n] /\ \A j \in 1..Len(g.links[n]) : done[n][j] = 0
(* a link is applied only when its context's gradient is complete: then nothing arrives later *)
CompleteFirst == \A n \in R : (\E j \in 1..Len(g.links[n]) : done[n][j] > 0) => Complete(n)
(* at the end every reached context has what it had plus its adjoint *)
Over == IF Order = "abstract" THEN \A n \in R : \A j \in 1..Len(g.links[n]) : done[n][j] = 1 ELSE todo = <<>>
Result == Over => \A n \in R : grad[n] = Num(g.had[n]) + g.adj[n]
AllDirty == dirty = R
Terminates == <>Over

(* the walk in an order is one of the abstract walks *)
Refines == [][AnyLink]_<<grad, done>>
=============================================================================
