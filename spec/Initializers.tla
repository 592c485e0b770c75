---------------------------- MODULE Initializers ---------------------------
(* Random constructors and initializers: which distribution every configuration     *)
(* stands for, and what a long interleaved history of calls has to look like.         *)
(*                                                                                    *)
(* A configuration is [f, args, tr, kind, p1, p2, stat]: the constructor, its          *)
(* arguments (decimal strings), the tracked status of its results, and the             *)
(* distribution: constant p1, uniform on [p1, p2), or normal with mean p1 and           *)
(* standard deviation p2 (terms); ex: the bounds are caller-given, hence exact.         *)
(* Configurations with stat = FALSE are judged by shape, status and support only.       *)
EXTENDS Integers, Sequences, SequencesExt, Rng, Terms

MaxInt == "9223372036854775807"

Mk(f, args, tr, kind, p1, p2, ex, stat) ==
  [f |-> f, args |-> args, tr |-> tr, kind |-> kind, p1 |-> p1, p2 |-> p2, ex |-> ex, stat |-> stat]
Unif(f, tr, lo, hi) == Mk(f, <<lo, hi>>, tr, "unif", C(lo), C(hi), TRUE, TRUE)
Norm(f, tr, m, s) == Mk(f, <<m, s>>, tr, "norm", C(m), C(s), TRUE, TRUE)
Support(cf) == [cf EXCEPT !.stat = FALSE]
Const(f, a, v) == Mk(f, a, TRUE, "const", C(v), C(v), TRUE, FALSE)
FanSum(fs) == SumT([j \in 1..Len(fs) |-> C(fs[j])])
Sqrt(t) == PowT(t, 1, 2)
FanU(f, fs) == LET r == Sqrt(DivT(Q(6, 1), FanSum(fs))) IN Mk(f, fs, TRUE, "unif", NegT(r), r, FALSE, TRUE)
FanN(f, fs) == Mk(f, fs, TRUE, "norm", Q(0, 1), Sqrt(DivT(Q(2, 1), FanSum(fs))), FALSE, TRUE)
HeU(a) == FanU("InitHeU", <<a>>)
HeN(a) == FanN("InitHeN", <<a>>)
XaU(a, b) == FanU("InitXavU", <<a, b>>)
XaN(a, b) == FanN("InitXavN", <<a, b>>)
(* nil configurations *)
NilUniform == Mk("InitUniformNil", <<>>, TRUE, "unif", C("-0.05"), C("0.05"), TRUE, TRUE)
NilNormal == Mk("InitNormalNil", <<>>, TRUE, "norm", C("0"), C("0.05"), TRUE, TRUE)
NilFull == Const("InitFullNil", <<>>, "0")

(* RandU / RandN: tr "nil" configuration is untracked *)
Fixed == <<
  Unif("RandU", FALSE, "-1", "1"), Unif("RandU", TRUE, "0", "1e-3"), Unif("RandU", TRUE, "1e308", "1.7e308"),
  Unif("RandU", FALSE, "-1.7e308", "1.7e308"), Unif("RandU", TRUE, "-1e-300", "1e-300"), Unif("RandUNil", FALSE, "5", "6"),
  Norm("RandNNil", FALSE, "0", "1"), Norm("RandN", TRUE, "-7", "0.01"), Norm("RandN", FALSE, "1e6", "1e6"), Norm("RandN", TRUE, "0", "1e-300"),
  NilUniform, Unif("InitUniform", TRUE, "-3", "1"), Unif("InitUniform", TRUE, "0.999", "1"), Unif("InitUniform", TRUE, "-1e307", "1.7e308"),
  NilNormal, Norm("InitNormal", TRUE, "2.5", "3"), Norm("InitNormal", TRUE, "0", "1e3"),
  HeU("1"), HeU("3"), HeU("1000"), HeU(MaxInt), HeN("1"), HeN("5"), HeN("784"), HeN(MaxInt),
  XaU("1", "1"), XaU("2", "7"), XaU("7", "2"), XaU("300", "100"), XaU(MaxInt, MaxInt), XaU(MaxInt, "1"),
  XaN("1", "1"), XaN("2", "7"), XaN("7", "2"), XaN("300", "100"), XaN(MaxInt, MaxInt), XaN("1", MaxInt),
  NilFull, Const("InitFull", <<"2.5">>, "2.5"), Const("InitFull", <<"-1e300">>, "-1e300"), Const("InitFull", <<"-0">>, "-0"),
  Const("InitFull", <<"+Inf">>, "+Inf"), Const("InitFull", <<"NaN">>, "NaN"), Const("InitFull", <<"5e-324">>, "5e-324"),
  Support(Unif("RandU", TRUE, "0", "5e-324")), Support(Unif("RandU", FALSE, "-5e-324", "5e-324")),
  Support(Unif("RandU", TRUE, "1", "1.0000000000000002")), Support(Unif("InitUniform", TRUE, "-1.0000000000000002", "-1")),
  Support(Unif("InitUniform", TRUE, "1e16", "1.0000000000000004e16")), Support(Unif("RandU", FALSE, "0.1", "0.10000000000000003")),
  Support(Norm("RandN", TRUE, "1e300", "1e-300")), Support(Norm("InitNormal", TRUE, "0", "5e-324"))
>>

(* and some drawn from the seed *)
Dec(n, e) == ToString(n) \o "e" \o ToString(e)
Fan(r, k) == ToString(IF RBool(r, k) THEN RRange(r, k + 1, 1, 9) ELSE RRange(r, k + 1, 10, 2000))
Drawn(r, k) ==
  LET a == RRange(r, 1, -99, 99)  w == RRange(r, 2, 1, 99)  e == RRange(r, 3, -6, 3)
      tr == RBool(r, 4) IN
  CASE k % 8 = 0 -> Unif("RandU", tr, Dec(a, e), Dec(a + w, e))
    [] k % 8 = 1 -> Unif("InitUniform", TRUE, Dec(a, e), Dec(a + w, e))
    [] k % 8 = 2 -> Norm("RandN", tr, Dec(a, e), Dec(w, e))
    [] k % 8 = 3 -> Norm("InitNormal", TRUE, Dec(a, e), Dec(w, e))
    [] k % 8 = 4 -> HeU(Fan(r, 10))
    [] k % 8 = 5 -> HeN(Fan(r, 10))
    [] k % 8 = 6 -> XaU(Fan(r, 10), Fan(r, 20))
    [] k % 8 = 7 -> XaN(Fan(r, 10), Fan(r, 20))

ConfigsOf(seed, ndrawn) == Fixed \o [k \in 1..ndrawn |-> Drawn(RSeed(seed, 100 + k), k)]

Small == << <<>>, <<1>>, <<2>>, <<3>>, <<12>>, <<2, 2>>, <<1, 3>>, <<3, 2>>, <<4, 3>>, <<2, 1, 2>>, <<2, 2, 2>>, <<2, 3, 2>>, <<1, 1, 1, 1>>, <<2, 1, 3, 1>>, <<2, 1, 2, 1, 2>> >>
Large == << <<800>>, <<20, 40>>, <<8, 10, 10>>, <<4, 5, 8, 5>>, <<1, 800>>, <<800, 1>>, <<400, 2>>, <<2, 2, 10, 4, 5>>, <<25, 32>>, <<1, 28, 28>> >>
Huge == << <<70000>>, <<300, 256>>, <<10, 100, 70>>, <<2, 40000>> >>

(* the history: call number k of the schedule.  In between, calls that have to be       *)
(* refused (a shape with a non-positive dimension) must leave no trace.                   *)
CallOf(seed, k, ncfg, nsmall, nlarge) ==
  LET r == RSeed(seed, 20000 + k)
      b == RSeed(seed, 20000 + k - RInt(r, 9, 3))            \* bursts: the configuration and shape of a recent call
      size == IF k <= nsmall THEN Small ELSE IF k <= nsmall + nlarge THEN Large ELSE Huge
  IN [c |-> 1 + RInt(b, 1, ncfg), sh |-> RPick(b, 2, size), fresh |-> RChance(r, 3, 1, 4), bad |-> RChance(r, 4, 1, 12)]

(* ---- what the results have to look like ------------------------------------------- *)
ISqrt(n) == FoldLeft(LAMBDA a, b : IF (a + b) * (a + b) <= n THEN a + b ELSE a, 0,
                     << 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1 >>)
Abs(n) == IF n < 0 THEN -n ELSE n
(* K standard deviations of a sum of n terms of variance v, rounded up                    *)
Band(k, n, num, den) == k * (ISqrt((n * num) \div den) + 1)
(* counts that are binomial(n, 1/m)                                                       *)
Even(k, counts, n, m) == \A j \in 1..Len(counts) : Abs(m * counts[j] - n) <= Band(k, n, m - 1, 1)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
=============================================================================
