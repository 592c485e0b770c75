------------------------------- MODULE Terms -------------------------------
(* Symbolic scalar terms and their derivatives.                                *)
(*                                                                             *)
(* The elements of the specification's tensors are terms over the elements of  *)
(* earlier tensors.  Terms are sequences whose first entry is a tag:           *)
(*   <<"x", n, i>>       element i (0-based, row-major) of tensor n            *)
(*   <<"a", k, n, i>>    derivative of back-propagation k's root sum with       *)
(*                       respect to element i of tensor n (an adjoint)         *)
(*   <<"q", p, d>>       the rational p/d          <<"c", "1e-12">> a decimal  *)
(*   <<"+", ts>> <<"*", ts>> <<"/", s, t>>                                     *)
(*   <<"^", t, p, d>>    t to the power p/d                                    *)
(*   <<"u", f, t>>       f in exp log sin cos tan sinh cosh tanh sigm          *)
(*                       dtanh = 1 - tanh^2, dsigm = sigm * (1 - sigm)         *)
(*   <<"max2", s, t>> <<"min2", s, t>>  <<"maxn", ts>> <<"minn", ts>>          *)
(*   <<"mean", ts>> <<"var", ts>> <<"std", ts>>   (var: unbiased, 0 for n = 1) *)
(*   <<"clip", t, lo, hi>>                                                     *)
(*   <<"cmp", c, s, t>>  1 if s c t else 0, c in eq ne gt ge lt le             *)
(*   <<"smax", j, ts>>   exp(ts[j]) / sum exp(ts)                              *)
(*   <<"leak", t, m>>    t where t > 0, m * t where t < 0                       *)
(* In a list of terms, <<"run", n, i, d, k>> stands for X(n, i), X(n, i + d), ...   *)
(* (k of them) and <<"cmprun", c, n, m, k>> for the comparisons of elements 0 .. k-1 *)
(* of n and m; they are used for observations of large tensors only.              *)
(* and, produced by differentiation only,                                      *)
(*   <<"gt2", s, t>>     1 if s > t, 0 if s < t, anything in [0,1] at s = t    *)
(*   <<"dleak", t, m>>   1 if t > 0, m if t < 0, anything between them at 0     *)
(*   <<"amax", j, ts>> <<"amin", j, ts>>  1 if ts[j] is the (unique) extremum, *)
(*                       0 if it is not, anything in [0,1] when it is tied     *)
(*   <<"in", t, lo, hi>> 1 strictly inside, 0 strictly outside, [0,1] at a bound *)
(* The interval-valued tags are how the specification says "where the          *)
(* operation is differentiable": the conformance driver evaluates terms with   *)
(* an error radius and accepts any value inside the resulting interval.        *)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* concatenation of a sequence of sequences (by halves, as every \o copies) *)
RECURSIVE FlatIn(_, _, _)
FlatIn(s, i, j) == IF j - i < 12 THEN FoldLeft(LAMBDA a, k : a \o s[k], <<>>, [k \in 1..(j - i + 1) |-> i + k - 1])
                   ELSE LET m == (i + j) \div 2 IN TLCEval(FlatIn(s, i, m) \o FlatIn(s, m + 1, j))
Flat(seqs) == LET s == TLCEval(seqs) IN FlatIn(s, 1, Len(s))

X(n, i) == <<"x", n, i>>
Q(p, d) == <<"q", p, d>>
C(s) == <<"c", s>>
ZeroT == Q(0, 1)
OneT == Q(1, 1)
IsQ(t, v) == t[1] = "q" /\ t[2] = v /\ t[3] = 1
IsZ(t) == t[1] = "q" /\ t[2] = 0
U(f, t) == <<"u", f, t>>
DivT(s, t) == IF IsZ(s) THEN ZeroT ELSE <<"/", s, t>>
PowT(t, p, d) == IF p = 0 THEN OneT ELSE IF p = d THEN t ELSE <<"^", t, p, d>>

(* (TLCEval: TLC would otherwise re-evaluate function bodies at every use) *)
SumT(ts) == LET us == SelectSeq(TLCEval(ts), LAMBDA t : ~IsZ(t)) IN
            IF us = <<>> THEN ZeroT ELSE IF Len(us) = 1 THEN us[1] ELSE <<"+", us>>
ProdT(ts0) == LET ts == TLCEval(ts0) IN
             IF \E i \in 1..Len(ts) : IsZ(ts[i]) THEN ZeroT ELSE
             LET us == SelectSeq(ts, LAMBDA t : ~IsQ(t, 1)) IN
             IF us = <<>> THEN OneT ELSE IF Len(us) = 1 THEN us[1] ELSE <<"*", us>>
NegT(t) == ProdT(<<Q(-1, 1), t>>)
SubT(s, t) == SumT(<<s, NegT(t)>>)

(* The differential of a term: the sequence of <<subterm, partial derivative of *)
(* the term with respect to that occurrence of the subterm>>.                    *)
Locals(t) ==
  CASE t[1] \in {"x", "q", "c", "a", "cmp"} -> <<>>
    [] t[1] = "+" -> [j \in 1..Len(t[2]) |-> <<t[2][j], OneT>>]
    [] t[1] = "*" -> [j \in 1..Len(t[2]) |-> <<t[2][j], ProdT([m \in 1..Len(t[2]) |-> IF m = j THEN OneT ELSE t[2][m]])>>]
    [] t[1] = "/" -> << <<t[2], DivT(OneT, t[3])>>, <<t[3], ProdT(<<Q(-1, 1), DivT(DivT(t[2], t[3]), t[3])>>)>> >>
    [] t[1] = "^" -> << <<t[2], ProdT(<<Q(t[3], t[4]), PowT(t[2], t[3] - t[4], t[4])>>)>> >>
    [] t[1] = "u" -> LET a == t[3]  f == t[2] IN
                     << <<a, (CASE f = "exp"  -> t
                               [] f = "log"  -> DivT(OneT, a)
                               [] f = "sin"  -> U("cos", a)
                               [] f = "cos"  -> NegT(U("sin", a))
                               [] f = "tan"  -> PowT(U("cos", a), -2, 1)
                               [] f = "sinh" -> U("cosh", a)
                               [] f = "cosh" -> U("sinh", a)
                               [] f = "tanh" -> U("dtanh", a)
                               [] f = "sigm" -> U("dsigm", a))>> >>
    [] t[1] = "max2" -> << <<t[2], <<"gt2", t[2], t[3]>> >>, <<t[3], <<"gt2", t[3], t[2]>> >> >>
    [] t[1] = "min2" -> << <<t[2], <<"gt2", t[3], t[2]>> >>, <<t[3], <<"gt2", t[2], t[3]>> >> >>
    [] t[1] = "leak" -> << <<t[2], <<"dleak", t[2], t[3]>> >> >>
    [] t[1] = "maxn" -> [j \in 1..Len(t[2]) |-> <<t[2][j], <<"amax", j, t[2]>> >>]
    [] t[1] = "minn" -> [j \in 1..Len(t[2]) |-> <<t[2][j], <<"amin", j, t[2]>> >>]
    [] t[1] = "mean" -> LET q == Q(1, Len(t[2])) IN [j \in 1..Len(t[2]) |-> <<t[2][j], q>>]
    [] t[1] = "var" -> LET m == Len(t[2]) IN
                       IF m = 1 THEN <<>>
                       ELSE [j \in 1..m |-> <<t[2][j], ProdT(<<Q(2, m - 1), SubT(t[2][j], <<"mean", t[2]>>)>>)>>]
    [] t[1] = "std" -> LET m == Len(t[2]) IN
                       IF m = 1 THEN <<>>
                       ELSE [j \in 1..m |-> <<t[2][j], ProdT(<<Q(1, m - 1), DivT(SubT(t[2][j], <<"mean", t[2]>>), t)>>)>>]
    [] t[1] = "clip" -> << <<t[2], <<"in", t[2], t[3], t[4]>> >> >>
    [] t[1] = "smax" -> LET js == t[3]  p(m) == <<"smax", m, js>> IN
                        [m \in 1..Len(js) |->
                           <<js[m], IF m = t[2] THEN ProdT(<<t, SubT(OneT, t)>>) ELSE ProdT(<<Q(-1, 1), t, p(m)>>)>>]

(* All first-order contributions: the derivative of seed * t as a sequence of    *)
(* <<n, i, coefficient>>; the derivative with respect to tensor element <<n, i>> *)
(* is the sum of its coefficients.                                               *)
RECURSIVE Rev(_, _)
Rev(t, seed) ==
  IF IsZ(seed) THEN <<>>
  ELSE IF t[1] = "x" THEN << <<t[2], t[3], seed>> >>
  ELSE LET ls == TLCEval(Locals(t)) IN
       Flat([j \in 1..Len(ls) |-> Rev(ls[j][1], ProdT(<<seed, ls[j][2]>>))])

(* derivative of a term with respect to tensor element <<n, i>> *)
D(t, n, i) == LET cs == SelectSeq(TLCEval(Rev(t, OneT)), LAMBDA e : e[1] = n /\ e[2] = i) IN
              SumT([j \in 1..Len(cs) |-> cs[j][3]])
=============================================================================
