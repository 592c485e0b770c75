------------------------------ MODULE Contracts ----------------------------
(* For every public entry point and every argument tuple: is the call accepted,   *)
(* and with which result shape?  (Totality, C09.)  Outcomes:                       *)
(*   [res |-> "ok", sh |-> shape]   a result of that shape and no error             *)
(*   [res |-> "err", sh |-> <<>>]   an error and no result                          *)
(*   [res |-> "any", sh |-> <<>>]   the statement does not settle which; no panic    *)
(* An operand id is 0 for nil, -1 for a tensor of a foreign implementation.          *)
EXTENDS Ops

(* extreme integers are written as tokens and replaced by the driver:              *)
HugeA == 2000000001        \* 2^62 + 1
MaxI == 2000000002         \* largest int
MinI == -2000000002        \* smallest int

Ok(s) == [res |-> "ok", sh |-> s]
Err == [res |-> "err", sh |-> <<>>]
AnyOut == [res |-> "any", sh |-> <<>>]
If(b, s) == IF b THEN Ok(s) ELSE Err

Cap == 1000000
SatProd(s) == FoldLeft(LAMBDA a, b : IF a >= Cap \/ b >= Cap THEN Cap ELSE Min2(Cap, a * b), 1, s)

(* whole-tensor observations, At and Equals, which return plain values (no shape)   *)
ScalarOps == {"Sum", "Max", "Min", "Avg", "Mean", "Var", "Std", "NElems", "Shape", "Gradient"}
AtOK(s, idx) == Len(idx) = Len(s) /\ \A j \in 1..Len(s) : 0 <= idx[j] /\ idx[j] < s[j]

Arity(op) == IF op \in CmpOps \cup ArithOps \cup ElOps \cup Losses \cup {"Dot", "MatMul", "Patch", "Equals"} THEN 2 ELSE 1

(* s(n): shape of tensor n *)
TryOutcome(op, in, par, s(_)) ==
  LET ss == [k \in 1..Len(in) |-> IF in[k] > 0 THEN s(in[k]) ELSE <<>>]
      real == \A k \in 1..Len(in) : in[k] > 0 IN
  CASE op \in ScalarOps -> Ok(<<>>)
    [] op = "At" -> If(AtOK(ss[1], par.s), <<>>)
    [] op = "Equals" -> If(real /\ ss[1] = ss[2], <<>>)
    [] op = "Concat" -> If(Len(in) >= 2 /\ real /\ ConcatOK(ss, par.d), IF Len(in) >= 2 /\ real /\ ConcatOK(ss, par.d) THEN OutShape(op, ss, par) ELSE <<>>)
    [] op = "Reshape" -> If(ValidDims(par.s) /\ SatProd(par.s) = NEl(ss[1]), par.s)
    [] op \in Activations \cup {"FCFwd"} ->      \* Forward(xs...)
         IF Len(in) # 1 \/ ~real THEN Err
         ELSE IF op = "FCFwd" THEN If(Len(ss[1]) = 2, IF Len(ss[1]) = 2 THEN <<ss[1][1], par.d>> ELSE <<>>)   \* par.d: outputs of the layer
         ELSE If(Precond(op, ss, par), ss[1])
    [] op = "BackPropagate" -> If(real, <<>>)
    [] OTHER -> IF Len(in) # Arity(op) \/ ~real \/ ~Precond(op, ss, par) THEN Err
                ELSE Ok(ResultShape(op, ss, par))

(* ---- constructors ---------------------------------------------------------- *)
(* real parameters are positions in this ascending list; the last is no number    *)
Reals == <<"-Inf", "-2", "-0.5", "-5e-324", "0", "5e-324", "0.25", "1", "6", "1e308", "+Inf", "NaN">>
NanR == 12
ZeroR == 5
LtR(i, j) == i # NanR /\ j # NanR /\ i < j

DevOK(dev) == dev \in {"nil", "cpu", "cpuT"}        \* others: unknown device numbers

(* dv (nested data): depth k data is a sequence of depth k-1 data; depth 1 is a length *)
RECURSIVE RectShape(_, _)
RectShape(d, v) ==        \* shape of rectangular non-empty data, <<0>> otherwise
  IF d = 0 THEN <<>>
  ELSE IF d = 1 THEN <<v>>
  ELSE IF Len(v) = 0 THEN <<0>>
  ELSE LET subs == [j \in 1..Len(v) |-> RectShape(d - 1, v[j])] IN
       IF (\E j \in 1..Len(v) : subs[j] # subs[1]) \/ 0 \in {subs[1][j] : j \in 1..Len(subs[1])} THEN <<0>>
       ELSE <<Len(v)>> \o subs[1]

FanOK(cl, two) == ~cl.nilc /\ cl.a[1] > 0 /\ (two => cl.a[2] > 0)

(* what the two initializers of a fully connected layer do, relative to Outputs     *)
InitOK(k) == k \in {"default", "good"}
InitKinds == <<"default", "good", "nil", "scalar", "rank2", "short", "long", "none", "error">>

CallOutcome(cl) ==
  LET dims == cl.dims IN
  CASE cl.f \in {"Full", "Zeros", "Ones"} -> If(DevOK(cl.dev) /\ ValidDims(dims), dims)
    [] cl.f = "Eye" -> If(DevOK(cl.dev) /\ cl.a[1] > 0, <<cl.a[1], cl.a[1]>>)
    [] cl.f = "RandU" -> If(DevOK(cl.dev) /\ ValidDims(dims) /\ LtR(cl.p[1], cl.p[2]), dims)
    [] cl.f = "RandN" -> If(DevOK(cl.dev) /\ ValidDims(dims) /\ LtR(ZeroR, cl.p[2]), dims)
    [] cl.f = "TensorOf" -> LET s == RectShape(cl.a[1], cl.data) IN
                            If(DevOK(cl.dev) /\ ValidDims(s), s)
    (* an initializer is made and, if that succeeds, initialises a tensor *)
    [] cl.f = "InitFull" -> If(ValidDims(dims), dims)
    [] cl.f = "InitUniform" -> If((cl.nilc \/ LtR(cl.p[1], cl.p[2])) /\ ValidDims(dims), dims)
    [] cl.f = "InitNormal" -> If((cl.nilc \/ LtR(ZeroR, cl.p[2])) /\ ValidDims(dims), dims)
    [] cl.f \in {"InitHeUniform", "InitHeNormal"} -> If(FanOK(cl, FALSE) /\ ValidDims(dims), dims)
    [] cl.f \in {"InitXavierUniform", "InitXavierNormal"} -> If(FanOK(cl, TRUE) /\ ValidDims(dims), dims)
    (* result: the shape of the weight; the driver checks the bias as well *)
    [] cl.f = "NewFC" -> If(~cl.nilc /\ cl.a[1] > 0 /\ cl.a[2] > 0 /\ InitOK(cl.k[1]) /\ InitOK(cl.k[2]), <<cl.a[2]>>)
    [] cl.f = "NewSoftmax" -> If(cl.nilc \/ cl.a[1] >= 0, <<>>)
    [] cl.f = "NewOther" -> Ok(<<>>)                    \* constructors without an error result
    [] cl.f = "Input" -> If(cl.k[1] = "set" /\ cl.a[1] = 0, dims)       \* a[1]: inputs passed; dims: seed shape
    (* FC structure with fields set by hand; a[1]: inputs passed; k: "nil" / "ok" / "odd" parameters; dims: input shape *)
    [] cl.f = "FCStruct" -> IF cl.a[1] # 1 \/ "nil" \in {cl.k[1], cl.k[2], cl.k[3]} \/ Len(dims) # 2 THEN Err
                            ELSE IF "odd" \in {cl.k[1], cl.k[2]} THEN AnyOut
                            ELSE Ok(<<dims[1], cl.a[2]>>)
    (* zero-valued component structures: no panic *)
    [] cl.f = "ZeroComp" -> AnyOut
    [] cl.f = "Update" -> If(cl.k[1] = "grad", dims)     \* k: "nilptr" "nil" "nograd" "untracked" "grad"
=============================================================================
